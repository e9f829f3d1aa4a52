/* Contracts on the C reader. The code is included unchanged from the repository (-DREADER="path"); nothing is dropped. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include <stdbool.h>
#include <fcntl.h>
#include READER

#ifdef REACH
#define REACHED __CPROVER_assert(0, "reached");
#else
#define REACHED
#endif

/* ---- specification functions (side-effect free) ---- */
#define ACCESS(v) ((v) % 10)
#define CONSENT(v) ((v) / 10)
#define VALID(v) ((v) == 0 || (v) == 1 || (v) == 2 || (v) == 11 || (v) == 12)
#define MAX(a, b) ((a) > (b) ? (a) : (b))
#define HEX(d) (((d) >= '0' && (d) <= '9') || ((d) >= 'A' && (d) <= 'F'))
#define HEXVAL(d) ((d) <= '9' ? (d) - '0' : (d) - 'A' + 10)

/* the strictest of two: the stronger access restriction, and consent if either asks for it */
uint8_t getMaxValidation(uint8_t newValidation, uint8_t currentMaxValidation)
    __CPROVER_requires(VALID(newValidation) && VALID(currentMaxValidation))
    __CPROVER_ensures(ACCESS(__CPROVER_return_value) == MAX(ACCESS(newValidation), ACCESS(currentMaxValidation)))
    __CPROVER_ensures(CONSENT(__CPROVER_return_value) == MAX(CONSENT(newValidation), CONSENT(currentMaxValidation)))
    __CPROVER_assigns();

uint8_t translateToMatrixIndex(uint8_t index)
    __CPROVER_ensures(__CPROVER_return_value == (index == 1 ? 1 : index == 2 ? 2 : index == 11 ? 3 : index == 12 ? 4 : 0))
    __CPROVER_assigns();

char hexDigit(int value)
    __CPROVER_requires(0 <= value && value < 16)
    __CPROVER_ensures(HEX(__CPROVER_return_value) && HEXVAL(__CPROVER_return_value) == value)
    __CPROVER_assigns();

int hexToInt(char hexDigit)
    __CPROVER_requires(HEX(hexDigit))
    __CPROVER_ensures(__CPROVER_return_value == HEXVAL(hexDigit))
    __CPROVER_assigns();


void main_getMaxValidation(void) { uint8_t a, b; getMaxValidation(a, b); REACHED }
void main_translateToMatrixIndex(void) { uint8_t a; translateToMatrixIndex(a); REACHED }
void main_hexDigit(void) { int a; hexDigit(a); REACHED }
void main_hexToInt(void) { char a; hexToInt(a); REACHED }

/* ---- functions over strings: the postcondition is asserted by the function's own harness ---- */
#define N 255 /* names and types have one length byte */

static bool same(const char *a, const char *b) {
    for (int i = 0;; i++) {
        if (a[i] != b[i]) return false;
        if (a[i] == 0) return true;
    }
}

void main_nodeTypeToString(void) {
    nodeTypes_t t;
    __CPROVER_assume(t >= SENSOR && t <= PROPERTY);
    char *s = nodeTypeToString(t);
    const char *want = t == BRANCH ? "branch" : t == SENSOR ? "sensor" : t == ACTUATOR ? "actuator" : t == ATTRIBUTE ? "attribute" : t == STRUCT ? "struct" : "property";
    __CPROVER_assert(same(s, want), "the name of the type");
    __CPROVER_assert(stringToNodeType(s) == t, "reading back what was written");
    REACHED
}

void main_stringToNodeType(void) {
    char s[N + 1];
    s[N] = 0;
    nodeTypes_t t = stringToNodeType(s);
    nodeTypes_t want = same(s, "branch") ? BRANCH : same(s, "sensor") ? SENSOR : same(s, "actuator") ? ACTUATOR : same(s, "attribute") ? ATTRIBUTE
                     : same(s, "struct") ? STRUCT : same(s, "property") ? PROPERTY : t;
    __CPROVER_assert(t == want, "the type of the name");
    __CPROVER_assert(t == BRANCH || t == SENSOR || t == ACTUATOR || t == ATTRIBUTE || t == STRUCT || t == PROPERTY || t == UNKNOWN, "a type");
    REACHED
}

void main_compareNodeName(void) {
    char a[N + 1], b[N + 1];
    a[N] = b[N] = 0;
    __CPROVER_assert(compareNodeName(a, b) == (same(a, b) || (b[0] == '*' && b[1] == 0)), "equal, or the wildcard");
    REACHED
}

void main_validate(void) {
    uint8_t v;
    __CPROVER_assume(VALID(v));
    char s[10 + 1 + 7 + 1];
    validateToString(v, s);
    const char *want = v == 0 ? "" : v == 1 ? "write-only" : v == 2 ? "read-write" : v == 11 ? "write-only+consent" : "read-write+consent";
    __CPROVER_assert(same(s, want), "the text of the validation");
    __CPROVER_assert(validateToUint8(s) == v, "reading back what was written");
    REACHED
}

void main_intToHex(void) {
    int v;
    __CPROVER_assume(0 <= v && v <= 255);
    char *h = intToHex(v);
    __CPROVER_assert(h[2] == 0 && hexToInt(h[0]) * 16 + hexToInt(h[1]) == v, "two digits that read back as the number");
    REACHED
}

void main_accessors(void) {
    node_t n;
    node_t *kids[255];
    n.child = kids;
    long h = (long)(intptr_t)&n;
    int i;
    __CPROVER_assume(0 <= i && i < n.children);
    bool leaf = n.type != BRANCH && n.type != STRUCT;
    __CPROVER_assert(VSSgetName(h) == n.name && VSSgetType(h) == n.type && VSSgetUUID(h) == n.uuid && VSSgetDescr(h) == n.description, "plain fields");
    __CPROVER_assert(VSSgetValidation(h) == n.validate && VSSgetParent(h) == (long)(intptr_t)n.parent, "validation, parent");
    __CPROVER_assert(VSSgetNumOfChildren(h) == n.children && VSSgetChild(h, i) == (long)(intptr_t)kids[i] && VSSgetChild(h, n.children) == 0, "children");
    __CPROVER_assert(VSSgetDatatype(h) == (leaf ? n.datatype : NULL) && VSSgetUnit(h) == (leaf ? n.unit : NULL), "datatype and unit of leaves");
    __CPROVER_assert(VSSgetNumOfAllowedElements(h) == (leaf ? n.allowed : 0), "allowed values of leaves");
    REACHED
}

void main_validationMatrix(void) { /* the strictest value does not depend on the order of the nodes on the path */
    uint8_t a, b, c;
    __CPROVER_assume(VALID(a) && VALID(b) && VALID(c));
    __CPROVER_assert(getMaxValidation(a, a) == a && getMaxValidation(a, b) == getMaxValidation(b, a), "idempotent and commutative");
    __CPROVER_assert(getMaxValidation(a, getMaxValidation(b, c)) == getMaxValidation(getMaxValidation(a, b), c), "associative");
    REACHED
}

/* library model: CBMC has none for strstr */
char *strstr(const char *h, const char *n) {
    for (; *h; h++) {
        int i = 0;
        while (n[i] && h[i] == n[i]) i++;
        if (!n[i]) return (char *)h;
    }
    return n[0] ? NULL : (char *)h;
}

/* ---- BOUNDED: texts of at most P characters ---- */
#define P 6

static int dots(const char *s) { int k = 0; for (int i = 0; s[i]; i++) k += s[i] == '.'; return k; }
static int text(char *s) { int n; __CPROVER_assume(0 <= n && n <= P); for (int i = 0; i < n; i++) __CPROVER_assume(s[i] != 0); s[n] = 0; return n; }

void main_bounded_countSegments(void) {
    char s[P + 1];
    int n = text(s);
    __CPROVER_assert(countSegments(s) == (n ? dots(s) + 1 : 0), "one more than there are dots");
    REACHED
}

void main_bounded_getPathSegment(void) {
    char s[P + 1];
    SearchContext_t c;
    int n = text(s), offset;
    __CPROVER_assume(n > 0 && s[0] != '.' && s[n - 1] != '.');
    for (int i = 0; i + 1 < n; i++) __CPROVER_assume(s[i] != '.' || s[i + 1] != '.');
    c.searchPath = s;
    __CPROVER_assume(c.currentDepth >= 0 && c.currentDepth <= P && (offset == 0 || offset == 1) && c.currentDepth + offset >= 1);
    char *r = getPathSegment(offset, &c);
    int k = c.currentDepth + offset, from = 0;
    for (int i = 0; i < n && k > 1; i++) if (s[i] == '.') { k--; from = i + 1; }
    if (k > 1) { /* beyond the path */
        bool star = s[n - 1] == '*' && c.currentDepth < c.maxDepth;
        __CPROVER_assert(same(r, star ? "*" : ""), "a trailing wildcard covers what is below it");
    } else {
        int i = 0;
        for (; s[from + i] && s[from + i] != '.'; i++) __CPROVER_assert(r[i] == s[from + i], "the segment");
        __CPROVER_assert(r[i] == 0, "and no more");
    }
    REACHED
}

void main_bounded_matchPath(void) {
    SearchContext_t c;
    char s[P + 1];
    s[3] = 0;
    text(s);
    for (int i = 0; s[i]; i++) __CPROVER_assume(s[i] != '.');
    int n = text(c.matchPath);
    __CPROVER_assume(n <= 3 && s[3] == 0);
    char before[P + 1];
    for (int i = 0; i <= n; i++) before[i] = c.matchPath[i];
    __CPROVER_assume((c.currentDepth == 0) == (n == 0) && c.currentDepth >= 0);
    pushPathSegment(s, &c);
    int from = n ? n + 1 : 0;
    __CPROVER_assert(same(c.matchPath + from, s) && (!n || c.matchPath[n] == '.'), "the segment comes after a dot");
    popPathSegment(&c);
    __CPROVER_assert(same(c.matchPath, before), "popping gives back what was there");
    REACHED
}

static char allowedBuf[2 * (2 + 2) + 1];
void main_bounded_allowed(void) { /* up to two allowed values of up to two characters each */
    char v[2][3];
    int n, at = 0;
    __CPROVER_assume(0 <= n && n <= 2);
    for (int i = 0; i < n; i++) {
        int k;
        __CPROVER_assume(0 <= k && k <= 2);
        for (int j = 0; j < k; j++) __CPROVER_assume(v[i][j] != 0);
        v[i][k] = 0;
        char *h = intToHex(k);
        allowedBuf[at++] = h[0];
        allowedBuf[at++] = h[1];
        for (int j = 0; j < k; j++) allowedBuf[at++] = v[i][j];
    }
    allowedBuf[at] = 0;
    __CPROVER_assert(countAllowedElements(allowedBuf) == n, "their number");
    allowed_t a[2];
    for (int i = 0; i < n; i++) {
        __CPROVER_assert(same(extractAllowedElement(allowedBuf, i), v[i]), "each of them");
        strcpy(a[i], v[i]);
    }
    __CPROVER_assert(calculatAllowedStrLen(n, a) == at, "the length of the text they give");
    REACHED
}
