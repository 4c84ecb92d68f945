// 21\n
int f(int a[][], int i, int j) { return a[i][j]; }
int main()
{
	int b[3][3];
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			b[i][j] = 10 * i + j;
	printf("%i\n", f(b, 2, 1));
	return 0;
}
