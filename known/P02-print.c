// 7
int main()
{
	print(7);
	return 0;
}
