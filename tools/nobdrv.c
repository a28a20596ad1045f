/* Calls one build helper of include/nob_concordia.h: nobdrv compile|encode|decode TOOL ARG... | flags DIR */
#define NOB_IMPLEMENTATION
#include "nob_concordia.h"
#include <stdio.h>
int main(int argc, char** argv) {
    if (argc == 5 && !strcmp(argv[1], "compile")) return cnd_compile(argv[2], argv[3], argv[4]) ? 0 : 1;
    if (argc == 6 && !strcmp(argv[1], "encode")) return cnd_encode(argv[2], argv[3], argv[4], argv[5]) ? 0 : 1;
    if (argc == 6 && !strcmp(argv[1], "decode")) return cnd_decode(argv[2], argv[3], argv[4], argv[5]) ? 0 : 1;
    if (argc == 3 && !strcmp(argv[1], "flags")) {
        Nob_Cmd c = {0}; cnd_cflags(&c, argv[2]); nob_da_append(&c, "|"); cnd_ldflags(&c, argv[2]);
        for (size_t i = 0; i < c.count; i++) printf("%s\n", c.items[i]);
        printf("%s\n", cnd_tool_path(argv[2])); return 0;
    }
    return 2;
}
