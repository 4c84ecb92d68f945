// 3\n
int main()
{
	char s[] = "a\0b";
	printf("%i\n", upb(s));
	return 0;
}
