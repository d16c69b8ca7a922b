/* Calls the C library entry point with argument vectors from a file.
 *
 * invoke MODE SCRIPT
 *   script: for each call: u32 argc (0xffffffff: change directory to the
 *   following string, 0xfffffffe: copy the file named by the following string
 *   to the next, 0xfffffffd: remove the file), then for each argument u32 length and the bytes (without the NUL)
 *   MODE guard: the array and every string end directly before an
 *     inaccessible page, cannot be written, and are unmapped after the call
 *   MODE under: the same, but they begin directly after an inaccessible page
 *   MODE heap: each is a block of exactly its size, freed after the call
 *   MODE stack: the array is on the stack, with other data around it
 * A line "returned N" goes to descriptor 3 after every call.
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include "waterbear.h"

static unsigned char *script;
static size_t at, end;

static uint32_t number(void) {
    uint32_t v;
    if (at + 4 > end) { fprintf(stderr, "driver: script too short\n"); _exit(99); }
    memcpy(&v, script + at, 4);
    at += 4;
    return v;
}

static char *text(void) {
    uint32_t len = number();
    char *s = strndup((char *)script + at, len);
    at += len;
    return s;
}

static void copy(const char *from, const char *to) {
    char buf[65536];
    ssize_t n;
    int a = open(from, O_RDONLY), b = open(to, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (a < 0 || b < 0) _exit(93);
    while ((n = read(a, buf, sizeof buf)) > 0)
        if (write(b, buf, n) != n) _exit(93);
    close(a);
    close(b);
}

struct block { void *map; size_t size; unsigned char *data; size_t used; };

static struct block take(const void *bytes, size_t n, int mode) {
    struct block b;
    b.used = n;
    if (mode == 'h') {
        b.map = 0;
        b.data = malloc(n ? n : 1);
        memcpy(b.data, bytes, n);
        return b;
    }
    size_t pages = (n + 4095) / 4096 * 4096;
    if (!pages) pages = 4096;
    b.size = pages + 8192;
    b.map = mmap(0, b.size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b.map == MAP_FAILED) _exit(98);
    unsigned char *first = (unsigned char *)b.map + 4096;
    memset(first, 0xA5, pages);
    b.data = mode == 'u' ? first : first + pages - n;
    memcpy(b.data, bytes, n);
    mprotect(b.map, 4096, PROT_NONE);
    mprotect(first + pages, 4096, PROT_NONE);
    mprotect(first, pages, PROT_READ);
    return b;
}

static void drop(struct block b) {
    if (b.map) munmap(b.map, b.size);
    else {
        memset(b.data, 0xDD, b.used);
        free(b.data);
    }
}

int main(int argc, char **argv) {
    int fd = open(argv[2], O_RDONLY);
    off_t n = lseek(fd, 0, SEEK_END);
    int mode = argv[1][0], calls = 0;
    (void)argc;
    script = malloc(n + 1);
    end = n;
    if (fd < 0 || pread(fd, script, n, 0) != n) return 97;
    close(fd);
    while (at < end) {
        uint32_t count = number();
        if (count == 0xffffffff) {
            uint32_t len = number();
            char *dir = strndup((char *)script + at, len);
            at += len;
            if (chdir(dir)) return 96;
            free(dir);
            continue;
        }
        if (count == 0xfffffffe || count == 0xfffffffd) {
            char *from = text(), *to = count == 0xfffffffe ? text() : 0;
            if (to) copy(from, to);
            else if (unlink(from)) _exit(93);
            free(from);
            free(to);
            continue;
        }
        struct block *strings = calloc(count + 1, sizeof *strings);
        const char **v = calloc(count + 1, sizeof *v), **keep = calloc(count + 1, sizeof *v);
        for (uint32_t k = 0; k < count; k++) {
            uint32_t len = number();
            char *s = malloc(len + 1);
            memcpy(s, script + at, len);
            s[len] = 0;
            at += len;
            strings[k] = take(s, len + 1, mode == 's' ? 'h' : mode);
            v[k] = (const char *)strings[k].data;
            keep[k] = s;
        }
        if (count == 0) {
            waterbear_invoke_command_line(0, mode == 'h' ? 0 : (const char **)v);
        } else if (mode == 's') {
            const char *local[count + 2];
            local[0] = (const char *)1;
            for (uint32_t k = 0; k < count; k++) local[k + 1] = v[k];
            local[count + 1] = (const char *)2;
            waterbear_invoke_command_line(count, local + 1);
            for (uint32_t k = 0; k < count; k++)
                if (local[k + 1] != v[k]) { fprintf(stderr, "driver: the array was changed\n"); _exit(95); }
        } else {
            struct block array = take(v, count * sizeof *v, mode);
            waterbear_invoke_command_line(count, (const char **)array.data);
            if (memcmp(array.data, v, count * sizeof *v)) { fprintf(stderr, "driver: the array was changed\n"); _exit(95); }
            drop(array);
        }
        for (uint32_t k = 0; k < count; k++) {
            if (strcmp((const char *)strings[k].data, keep[k])) { fprintf(stderr, "driver: an argument was changed\n"); _exit(95); }
            drop(strings[k]);
            free((void *)keep[k]);
        }
        free(strings);
        free(v);
        free(keep);
        char line[40];
        int len = snprintf(line, sizeof line, "returned %d\n", ++calls);
        if (write(3, line, len) != len) return 94;
    }
    free(script);
    return 0;
}
