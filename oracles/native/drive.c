// Harness around the C library: executes the commands of a file.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "cparserlib.h"

static FILE* out;

static void hex(const char* s) {
    fputc(' ', out);
    fputc('x', out);
    if (s == NULL) return;
    for (; *s; s++) fprintf(out, "%02x", (unsigned char)*s);
}

static void dump(long n, int depth) {
    node_t* p = (node_t*)((intptr_t)n);
    fprintf(out, "N %d %d %d %d", depth, (int)VSSgetType(n), VSSgetNumOfChildren(n), VSSgetValidation(n));
    hex(VSSgetName(n)); hex(VSSgetUUID(n)); hex(VSSgetDescr(n)); hex(VSSgetDatatype(n)); hex(VSSgetUnit(n));
    hex(p->minLen ? p->min : ""); hex(p->maxLen ? p->max : ""); hex(p->defaultLen ? p->defaultAllowed : "");
    int a = VSSgetNumOfAllowedElements(n);
    fprintf(out, " %d", a);
    for (int i = 0; i < a; i++) hex(VSSgetAllowedElement(n, i));
    fprintf(out, " %d\n", (depth == 0) ? (VSSgetParent(n) == 0) : 1);
    for (int i = 0; i < VSSgetNumOfChildren(n); i++) {
        long c = VSSgetChild(n, i);
        if (VSSgetParent(c) != n) fprintf(out, "BADPARENT\n");
        dump(c, depth + 1);
    }
}

int main(int argc, char** argv) {
    FILE* in = fopen(argv[1], "r");
    out = fopen(argv[2], "w");
    static char line[8192], arg[4096];
    long root = 0;
    while (fgets(line, sizeof line, in)) {
        int any, leaf;
        if (sscanf(line, "read %4000s", arg) == 1) { root = VSSReadTree(arg); }
        else if (strncmp(line, "dump", 4) == 0) { dump(root, 0); fprintf(out, "END\n"); }
        else if (sscanf(line, "write %4000s", arg) == 1) { VSSWriteTree(arg, root); }
        else if (sscanf(line, "leaflist %4000s", arg) == 1) { fprintf(out, "L %d\n", VSSGetLeafNodesList(root, arg)); }
        else if (sscanf(line, "uuidlist %4000s", arg) == 1) { fprintf(out, "U %d\n", VSSGetUuidList(root, arg)); }
        else if (sscanf(line, "search %d %d %4000s", &any, &leaf, arg) == 3) {
            searchData_t* sd = calloc(MAXFOUNDNODES, sizeof(searchData_t));
            int val = -1;
            char path[MAXCHARSPATH];
            strcpy(path, arg);
            int n = VSSSearchNodes(path, root, MAXFOUNDNODES, sd, any, leaf, 0, NULL, &val);
            fprintf(out, "S %d %d", n, val);
            for (int i = 0; i < n; i++) { hex(sd[i].responsePaths); hex(VSSgetName(sd[i].foundNodeHandles)); }
            fprintf(out, "\n");
            free(sd);
        }
    }
    fclose(out);
    return 0;
}
