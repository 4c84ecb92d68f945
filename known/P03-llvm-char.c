// 1103\n
int main()
{
	char c = 'я';
	printf("%i\n", c + 0);
	return 0;
}
