"""Names whose hashes collide, found with /repo's own hash function (nothing is assumed about it)."""
import os
import subprocess

import sut

SRC = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <algorithm>
#include <vector>
#include <utility>
#include "hash.h"
#include "config.h"
int main() {
	std::vector<std::pair<uint32_t, uint32_t> > v;
	char b[64];
	for (int zero = 0; zero < 2; zero++) {
		v.clear();
		for (uint32_t i = 0; i < 400000; i++) {
			int n = snprintf(b, sizeof b, "n%c%u", zero ? 0 : 'n', i);
			uint32_t h = 0;
			MurmurHash3_x86_32(b, n, HASH_SEED, &h);
			v.push_back(std::make_pair(h, i));
		}
		std::sort(v.begin(), v.end());
		for (size_t i = 1; i < v.size(); i++)
			if (v[i].first == v[i-1].first) printf("%d %u %u\n", zero, v[i-1].second, v[i].second);
	}
}
'''


def pairs():
    """[(name, name)], empty if the hash function can not be called the way it is now."""
    d = os.path.join(sut.scratch(), "collide")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "c.cpp"), "w") as f:
        f.write(SRC)
    core = os.path.join(sut.REPO, "src", "core")
    p = subprocess.run(["g++", "-O2", "-w", "-I", core, os.path.join(d, "c.cpp"), os.path.join(core, "hash.cpp"),
                        "-o", os.path.join(d, "c")], capture_output=True, text=True)
    if p.returncode:
        return []
    p = subprocess.run([os.path.join(d, "c")], capture_output=True, text=True, timeout=60)
    # (names with a NUL byte too, equal up to it)
    rows = [l.split() for l in p.stdout.splitlines()]
    return [tuple((b"n\0" if z == "1" else b"nn") + x.encode() for x in (a, b)) for z, a, b in rows]


def really(binary, pair):
    """Does the server treat the two as colliding keys? (Then the second upload displaces the first.)"""
    s = sut.Server(binary)
    try:
        s.start()
        c = s.connect()
        c.request(sut.put(b"t", pair[0], b"first"))
        c.request(sut.put(b"t", pair[1], b"second"))
        st = c.request(sut.get(b"t", pair[0]))
        return st[0] == 404 or st[2] != b"first"
    except (sut.ServerDied, sut.Stall, sut.Closed):
        return True
    finally:
        s.close()


if __name__ == "__main__":
    ps = pairs()
    print(len(ps), ps[:5])
    b = sut.build("rel")
    print([really(b, p) for p in ps[:5]])
