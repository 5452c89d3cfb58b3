from batch1h import *
D = r'''
#include "CharAllocator.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
/* a history of texts; every text is filled with its own letter and checked at the end */
struct B { char *p; size_t n; char c; };
static struct B b[64]; static int n; static int bad;
static void fresh(char *p, size_t k, const char *w) { for (size_t i = 0; i < k; i++) if (p[i]) { printf("%s: not zero\n", w); bad = 1; break; } }
int main(int argc, char **argv)
{
    CharArenaAllocator *a = CharArenaAllocator_new(INITIAL);
    const char *ops = OPS;
    for (; *ops; ops++)
    {
        char op = *ops++;
        size_t k = (size_t)strtoul(ops, (char **)&ops, 10);
        if (op == 'm') { char *p = CharArenaAllocator_malloc(a, k); fresh(p, k, "new text"); memset(p, 'a' + n, k); b[n].p = p; b[n].n = k; b[n].c = (char)('a' + n); n++; }
        else { char *p = CharArenaAllocator_realloc(a, k); b[n-1].p = p; fresh(p + b[n-1].n, k, "grown text"); memset(p + b[n-1].n, b[n-1].c, k); b[n-1].n += k; }
        if (!*ops) break;
    }
    for (int i = 0; i < n; i++) { for (size_t j = 0; j < b[i].n; j++) if (b[i].p[j] != b[i].c) { printf("text %d is changed at %zu\n", i, j); bad = 1; break; }
      printf("%zu %c\n", b[i].n, b[i].c); }
    CharArenaAllocator_delete(a);
    printf("done %d\n", bad);
    return 0;
}
'''
C = "src/CharAllocator.c"
def drv(i, ops): return D.replace("INITIAL", str(i)).replace("OPS", '"%s"' % ops)

plant("c01-doubled", "C01", [(C, "Region_new(getRegionSize(size + arena->current->userSize*2, arena->initialSize));",
  "Region_new(getRegionSize(size + arena->current->userSize/2, arena->initialSize));")],
  runs=[("", [])], driver=drv(100, "m90 r15"), needs="a text which almost fills its region grows into the next one", breaks="the grown text does not fit its region")
plant("c01-fit", "C01", [(C, """    if ((arena->current->size + size) > arena->current->capacity)
    {        
        struct""", """    if ((arena->current->size + size) > arena->current->capacity + (arena->current->next != NULL))
    {        
        struct""")], runs=[("", [])], driver=drv(16, "m10 m10 m7"), needs="a text which misses the end of a later region by one byte",
  breaks="the text exceeds its region by one byte")
plant("c01-unzeroed", "C01", [(C, "    region->mem = (char *)calloc(capacity, sizeof(char));", "    region->mem = (char *)(capacity < 4096 ? calloc(capacity, sizeof(char)) : memset(malloc(capacity), ' ', capacity) );")],
  runs=[("", [])], driver=drv(16, "m10 m9000"), needs="a text larger than a page", breaks="the new text is not zeroed")
plant("c02-copied", "C02", [(C, "        memcpy(newRegion->userPtr, arena->current->userPtr, arena->current->userSize);",
  "        memcpy(newRegion->userPtr, arena->current->userPtr, arena->current->next ? size : arena->current->userSize);")],
  runs=[("", [])], driver=drv(16, "m10 m10 r9"), needs="a text grows out of a region which is not the first one, by less than its length", breaks="the end of the text so far is lost")
plant("c02-size", "C02", [(C, "        newRegion->userSize = arena->current->userSize;\n", "        newRegion->userSize = size;\n")],
  runs=[("", [])], driver=drv(16, "m10 r9 r40"), needs="a text which moves twice while growing", breaks="the second move copies too little")
plant("c02-next", "C02", [(C, """        newRegion->next = arena->current;
        arena->current = newRegion;
    }
    arena->current->userPtr""", """        newRegion->next = arena->current;
        if (size > arena->initialSize && arena->current->size <= 8)
        {
            newRegion->next = arena->current->next;
            free(arena->current->mem);
            free(arena->current);
        }
        arena->current = newRegion;
    }
    arena->current->userPtr""")], runs=[("", [])], driver=drv(16, "m5 m40 m3"), needs="a text larger than a region while the current region only holds a short one", breaks="the memory of a text handed out before is released")
plant("c01-reuse", "C01", [(C, """        memcpy(newRegion->userPtr, arena->current->userPtr, arena->current->userSize);
        newRegion->userSize""", """        memcpy(newRegion->userPtr, arena->current->userPtr, arena->current->userSize);
        arena->current->size -= arena->current->userSize;
        newRegion->userSize"""), (C, """    arena->current->userPtr = arena->current->mem + arena->current->size;
""", """    if (arena->current->next && arena->current->size + size > arena->current->capacity / 2 &&
        arena->current->next->size + size <= arena->current->next->capacity / 4)
    {
        char *p = arena->current->next->mem + arena->current->next->size;
        arena->current->next->size += size;
        return p;
    }
    arena->current->userPtr = arena->current->mem + arena->current->size;
""")], runs=[("", [])], driver=drv(100, "m90 r100 m85 m20"), needs="a text moved out of an otherwise empty region, then a small text", breaks="the new text reuses memory which is not zeroed")
