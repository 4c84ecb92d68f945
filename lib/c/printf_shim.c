#include <stdarg.h>
#include <stdio.h>
#include <string.h>

/* printf of the program under test: the same text as the reference interpreter writes, with doubles exact */
int rucmon_printf(const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	for (; *f; f++)
	{
		if (*f != '%')
		{
			putchar(*f);
			continue;
		}
		f++;
		while (*f && strchr("l.0123456789", *f))
		{
			f++;
		}
		if (*f == 'i' || *f == 'd')
		{
			printf("%d", va_arg(ap, int));
		}
		else if (*f == 'c')
		{
			putchar(va_arg(ap, int));
		}
		else if (*f == 'f')
		{
			const double d = va_arg(ap, double);
			if (d == 0)
			{
				fputs(__builtin_signbit(d) ? "f-0x0.0p+0" : "f0x0.0p+0", stdout);
			}
			else
			{
				printf("f%.13a", d);
			}
		}
		else if (*f == 's')
		{
			printf("%s", va_arg(ap, char *));
		}
		else if (*f == '%')
		{
			putchar('%');
		}
		else
		{
			printf("<unknown %%%c>", *f);
		}
	}
	va_end(ap);
	return 0;
}
