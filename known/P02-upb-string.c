// 5\n
int main()
{
	char s[] = "hello";
	printf("%i\n", upb(s));
	return 0;
}
