// Reads `vp reference` lines, compares forms and quick checks with the system's ICU on texts of characters it knows.
#include <unicode/uchar.h>
#include <unicode/unorm2.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static UChar a[1 << 17], b[1 << 17], w[1 << 17];
static int read16(char *h, UChar *o, int *known) {
    int n = 0;
    for (char *p = strtok(h, " "); p; p = strtok(0, " ")) {
        UChar32 c = strtol(p, 0, 16);
        if (u_charType(c) == U_UNASSIGNED) *known = 0;
        U16_APPEND_UNSAFE(o, n, c);
    }
    return n;
}
int main(void) {
    UErrorCode e = 0;
    const UNormalizer2 *n[4] = {unorm2_getNFDInstance(&e), unorm2_getNFKDInstance(&e), unorm2_getNFCInstance(&e), unorm2_getNFKCInstance(&e)};
    static char line[1 << 20];
    long lines = 0, used = 0, bad = 0, badq = 0, stronger = 0;
    while (fgets(line, sizeof line, stdin)) {
        lines++;
        line[strcspn(line, "\n")] = 0;
        char *f[16], *p = line;
        int k = 0;
        while (p) f[k++] = strsep(&p, ";");
        char copy[1 << 16];
        snprintf(copy, sizeof copy, "%s", f[0]);
        int known = 1, la = read16(f[0], a, &known);
        if (!known) continue;
        used++;
        for (int i = 0; i < 4; i++) {
            e = 0;
            int lb = unorm2_normalize(n[i], a, la, b, 1 << 17, &e), lw = read16(f[1 + i], w, &known);
            if (lb != lw || memcmp(b, w, 2 * lb)) {
                if (bad++ < 5) printf("form %d of %s\n", i, copy);
            }
            e = 0;
            int q = unorm2_quickCheck(n[i], a, la, &e);
            const char *t = q == UNORM_YES ? "Yes" : q == UNORM_NO ? "No" : "Maybe";
            if (strcmp(t, f[5 + i])) {
                if (q == UNORM_NO && !strcmp(f[5 + i], "Maybe")) { if (stronger++ < 3) printf("ICU says No where Maybe is expected: form %d of %s\n", i, copy); }
                else if (badq++ < 5) printf("quick check %d of %s: %s, not %s\n", i, copy, t, f[5 + i]);
            }
        }
    }
    printf("ICU %s, Unicode %s: %ld of %ld texts, %ld forms differ, %ld quick checks differ, %ld where ICU knows more\n", U_ICU_VERSION, U_UNICODE_VERSION, used, lines, bad, badq, stronger);
}
