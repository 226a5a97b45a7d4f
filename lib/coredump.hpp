// Writes the memory of this process as a core file, using nothing but system calls.
#pragma once
#include <elf.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/procfs.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace coredump_of_self {
struct Seg { unsigned long start, end; bool keep; };
static Seg g_seg[4096]; static char g_maps[4 << 20]; static Elf64_Phdr g_ph[4097];
inline bool put(int fd, const void *p, size_t n) { const char *c = (const char *) p; while (n) { long r = syscall(SYS_write, fd, c, n); if (r <= 0) return false; c += r; n -= r; } return true; }
// all: mappings of files are included (coredump_filter with bit 2), otherwise only memory that was written to
inline bool dump(const char *path, bool all)
{
	int fd = syscall(SYS_open, "/proc/self/smaps", O_RDONLY); if (fd < 0) return false; size_t n = 0; for (;;) { long r = syscall(SYS_read, fd, g_maps + n, sizeof(g_maps) - 1 - n); if (r <= 0) break; n += r; } g_maps[n] = 0; close(fd);
	unsigned k = 0; bool skip = true;
	for (char *l = g_maps; *l;) {
		char *e = strchr(l, '\n'); if (!e) break; *e = 0; char *d, *q; unsigned long a = strtoul(l, &d, 16);
		if (*d == '-' && d != l) {
			unsigned long b = strtoul(d + 1, &q, 16); bool rd = q[1] == 'r', wr = q[2] == 'w', ex = q[3] == 'x', sh = q[4] == 's';
			skip = !rd || ex || sh || strstr(q, "[v") || b - a > (256ul << 20) || k >= 4096; if (!skip) { g_seg[k].start = a; g_seg[k].end = b; g_seg[k].keep = wr || all; k++; }
		} else if (!skip && !strncmp(l, "Anonymous:", 10) && strtoul(l + 10, 0, 10)) g_seg[k - 1].keep = true;
		l = e + 1;
	}
	unsigned m = 0; for (unsigned i = 0; i < k; i++) if (g_seg[i].keep) g_seg[m++] = g_seg[i];
	struct { Elf64_Nhdr h1; char n1[8]; prpsinfo_t ps; Elf64_Nhdr h2; char n2[8]; prstatus_t st; } __attribute__((packed)) note; memset(&note, 0, sizeof(note));
	note.h1.n_namesz = 5; note.h1.n_descsz = sizeof(prpsinfo_t); note.h1.n_type = NT_PRPSINFO; memcpy(note.n1, "CORE", 5); memcpy(note.ps.pr_fname, "victim", 7); memcpy(note.ps.pr_psargs, "victim", 7);
	note.h2.n_namesz = 5; note.h2.n_descsz = sizeof(prstatus_t); note.h2.n_type = NT_PRSTATUS; memcpy(note.n2, "CORE", 5); note.st.pr_pid = 1; note.st.pr_cursig = 6;
	Elf64_Ehdr eh; memset(&eh, 0, sizeof(eh)); memcpy(eh.e_ident, ELFMAG, 4); eh.e_ident[EI_CLASS] = ELFCLASS64; eh.e_ident[EI_DATA] = ELFDATA2LSB; eh.e_ident[EI_VERSION] = EV_CURRENT; eh.e_type = ET_CORE; eh.e_machine = EM_X86_64; eh.e_version = EV_CURRENT; eh.e_phoff = sizeof(eh); eh.e_ehsize = sizeof(eh); eh.e_phentsize = sizeof(Elf64_Phdr); eh.e_phnum = m + 1;
	unsigned long off = sizeof(eh) + (m + 1) * sizeof(Elf64_Phdr); memset(g_ph, 0, sizeof(g_ph[0]) * (m + 1)); g_ph[0].p_type = PT_NOTE; g_ph[0].p_offset = off; g_ph[0].p_filesz = sizeof(note); g_ph[0].p_align = 4; off += sizeof(note); off = (off + 4095) & ~4095ul;
	unsigned long data = off;
	for (unsigned i = 0; i < m; i++) { Elf64_Phdr &p = g_ph[i + 1]; p.p_type = PT_LOAD; p.p_offset = off; p.p_vaddr = g_seg[i].start; p.p_filesz = p.p_memsz = g_seg[i].end - g_seg[i].start; p.p_flags = PF_R | PF_W; p.p_align = 4096; off += p.p_filesz; }
	fd = syscall(SYS_open, path, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) return false; static char zero[4096];
	bool ok = put(fd, &eh, sizeof(eh)) && put(fd, g_ph, (m + 1) * sizeof(Elf64_Phdr)) && put(fd, &note, sizeof(note)) && put(fd, zero, data - (g_ph[0].p_offset + sizeof(note)));
	for (unsigned i = 0; ok && i < m; i++) {
		// pages that cannot be read (mapped beyond the end of a file) are zeros
		for (unsigned long a = g_seg[i].start; ok && a < g_seg[i].end;) { long r = syscall(SYS_write, fd, a, g_seg[i].end - a); if (r > 0) a += r; else { ok = put(fd, zero, 4096); a += 4096; } }
	}
	close(fd); return ok;
}
}
