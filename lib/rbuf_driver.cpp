// Performs steps on the input buffer of /repo, read from stdin, and prints what it answers. One line per step.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
enum state_action { needs_more_read, continue_processing, close_connection, registered_write };
#include "read_buffer.h"

static struct read_buffer rb;
static unsigned char bytes[2 * BUFFER_SIZE + 16];
static char guarded[2 * BUFFER_SIZE + 64];

static int hex(const char* s) {
	int n = 0;
	if (*s == '-') return 0;
	for (; s[0] && s[1] && s[0] != '\n'; s += 2) {
		unsigned v;
		sscanf(s, "%2x", &v);
		bytes[n++] = v;
	}
	return n;
}
static void put(const char* p, int n) {
	if (n == 0) putchar('-');
	for (int i = 0; i < n; i++) printf("%02x", (unsigned char)p[i]);
}
static void all() {
	// byte by byte, and by iterating
	int n = rbuf_read_remaining(&rb), end, i = 0, k = 0;
	char* buffer;
	static char seen[BUFFER_SIZE + 1];
	state_action ret = continue_processing;
	struct read_buffer* p = &rb;
	RBUF_ITERATE(rb, i, buffer, end, ret, (k < BUFFER_SIZE + 1 ? seen[k++] = *buffer : 0, continue_processing));
	if (i != n) { printf("iterated %d of %d ", i, n); return; }
	put(seen, k);
	(void)p;
}
int main() {
	static char line[8 * BUFFER_SIZE + 4096];
	rbuf_init(&rb);
	while (fgets(line, sizeof line, stdin)) {
		char op[16];
		int at = 0;
		sscanf(line, "%15s %n", op, &at);
		char* arg = line + at;
		if (!strcmp(op, "skip")) {
			rbuf_init(&rb);
			for (long left = atol(arg); left > 0;) {
				int n = rbuf_write_to_end(&rb);
				if (n > left) n = left;
				memset(RBUF_WRITE(rb), 'x', n);
				RBUF_WRITEMOVE(rb, n);
				RBUF_READMOVE(rb, n);
				left -= n;
			}
			printf("ok\n");
		} else if (!strcmp(op, "w")) {
			int n = hex(arg);
			memcpy(RBUF_WRITE(rb), bytes, n);
			RBUF_WRITEMOVE(rb, n);
			printf("ok\n");
		} else if (!strcmp(op, "r")) {
			int n = atoi(arg);
			RBUF_READMOVE(rb, n);
			printf("ok\n");
		} else if (!strcmp(op, "obs")) {
			printf("%d %d %d %d ", rbuf_read_remaining(&rb), rbuf_write_remaining(&rb), rbuf_read_contiguous(&rb), (int)rbuf_write_to_end(&rb));
			all();
			printf("\n");
		} else if (!strcmp(op, "copy")) {
			int n = atoi(arg);
			memset(guarded, 0x5a, sizeof guarded);
			int r = rbuf_copyn(&rb, guarded + 16, n);
			int bad = 0;
			for (int i = 0; i < 16; i++) bad |= guarded[i] != 0x5a;
			for (int i = 16 + (r > 0 ? r : 0); i < (int)sizeof guarded; i++) bad |= guarded[i] != 0x5a;
			if (bad) printf("outside ");
			printf("%d ", r);
			put(guarded + 16, r);
			printf("\n");
		} else if (!strcmp(op, "cmp")) {
			int n = hex(arg);
			char* exact = (char*)malloc(n + 1);      // nothing behind what is compared
			memcpy(exact, bytes, n);
			exact[n] = 0;
			printf("%s\n", rbuf_cmpn(&rb, exact, n) == 0 ? "equal" : "different");
			free(exact);
		} else if (!strcmp(op, "num")) {
			int v = -12345;
			bool ok = rbuf_strntol(&rb, &v, atoi(arg));
			if (ok) printf("%d\n", v); else printf("no\n");
		}
		fflush(stdout);
	}
	return 0;
}
