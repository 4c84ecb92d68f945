// 1 2 3\n
int g;
int f(int x)
{
	g = g + x;
	return g;
}
int add(int x, int y, int z)
{
	printf("%i %i %i\n", x, y, z);
	return x + y + z;
}
int main()
{
	add(1, (f(2), g), 3);
	return 0;
}
