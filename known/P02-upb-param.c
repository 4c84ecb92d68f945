// 3\n
int f(int a[])
{
	return upb(0, a);
}
int main()
{
	int b[3] = {1, 2, 3};
	printf("%i\n", f(b));
	return 0;
}
