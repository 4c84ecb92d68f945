// 1\n
int main()
{
	printf("1\n");
	exit(0);
	printf("2\n");
	return 0;
}
