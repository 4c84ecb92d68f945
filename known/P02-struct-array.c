// 5\n
struct s
{
	int a[3];
	int b;
};
int main()
{
	struct s x;
	x.b = 5;
	printf("%i\n", x.b);
	return 0;
}
