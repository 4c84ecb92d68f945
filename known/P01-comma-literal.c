// 1 7 3\n
int show(int x, int y, int z)
{
	printf("%i %i %i\n", x, y, z);
	return x + y + z;
}
int main()
{
	show(1, (5, 7), 3);
	return 0;
}
