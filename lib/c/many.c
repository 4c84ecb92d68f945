/* Many compilations in one process.  Lines of standard input: message file, status file, then arguments, tab separated. */
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "compiler.h"
#include "workspace.h"

int main(void)
{
	static char line[1 << 16];
	while (fgets(line, sizeof(line), stdin) != NULL)
	{
		const char *argv[64];
		int argc = 0;
		line[strcspn(line, "\n")] = '\0';
		for (char *p = strtok(line, "\t"); p != NULL && argc < 64; p = strtok(NULL, "\t"))
		{
			argv[argc++] = p;
		}
		const char *const messages = argv[0];
		const char *const status = argv[1];
		argv[1] = "ruc";

		fflush(stderr);
		const int keep = dup(2);
		const int fd = open(messages, O_WRONLY | O_CREAT | O_TRUNC, 0600);
		dup2(fd, 2);
		close(fd);

		workspace ws = ws_parse_args(argc - 1, argv + 1);
		const int ret = compile(&ws);
		ws_clear(&ws);

		fflush(stderr);
		dup2(keep, 2);
		close(keep);
		FILE *f = fopen(status, "w");
		fprintf(f, "%d\n", ret ? 64 : 0);
		fclose(f);
	}
	return 0;
}
