// 1 4 3\n
int add(int x, int y, int z)
{
	printf("%i %i %i\n", x, y, z);
	return x + y + z;
}
int main()
{
	int a[2] = {8, 9};
	int i = 1;
	add(1, (a[i], 4), 3);
	return 0;
}
