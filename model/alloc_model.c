/* Allocator model linked instead of Kani's kani_lib.c.
 *
 * It keeps every check of Kani's model and adds what Kani leaves as a TODO: the alignment passed to
 * dealloc/realloc must be the one the block was allocated with. One allocation, picked
 * nondeterministically by its serial number, is watched; since the solver considers every pick, the
 * check covers every allocation. It also counts the live blocks, so a harness can state "no leak".
 */
#include <stddef.h>
#include <stdint.h>

void *malloc(size_t size);
void *calloc(size_t nmemb, size_t size);
void free(void *ptr);
void *memcpy(void *dst, const void *src, size_t n);

struct Unit;
extern struct Unit VoidUnit;

#define CHECK(cond, msg)                                                                           \
    do {                                                                                           \
        __CPROVER_bool vp_c = (cond);                                                              \
        __CPROVER_assert(vp_c, msg);                                                               \
        __CPROVER_assume(vp_c);                                                                    \
    } while (0)

#define POW2(i) ((i) != 0 && ((i) & ((i)-1)) == 0)

static size_t vp_live_count = 0;
static size_t vp_serial = 0;
static __CPROVER_bool vp_watch_init = 0;
static size_t vp_watch_serial;
static uint8_t *vp_watch_ptr = 0;
static size_t vp_watch_align = 0;

static void vp_on_alloc(uint8_t *p, size_t align)
{
    if (!vp_watch_init) {
        size_t pick; /* uninitialised: any value */
        vp_watch_serial = pick;
        vp_watch_init = 1;
    }
    if (vp_serial == vp_watch_serial) {
        vp_watch_ptr = p;
        vp_watch_align = align;
    }
    vp_serial = vp_serial + 1;
    vp_live_count = vp_live_count + 1;
}

static void vp_on_free(uint8_t *p, size_t align)
{
    if (vp_watch_ptr != 0 && p == vp_watch_ptr) {
        CHECK(align == vp_watch_align, "VP: block freed or grown with the alignment it was allocated with");
        vp_watch_ptr = 0;
    }
    vp_live_count = vp_live_count - 1;
}

/* Number of heap blocks alive. */
size_t vp_live(void) { return vp_live_count; }

uint8_t *__rust_alloc(size_t size, size_t align)
{
    CHECK(size > 0, "VP: alloc must be called with a size greater than 0");
    CHECK(POW2(align), "VP: alignment is a power of two");
    uint8_t *p = malloc(size);
    vp_on_alloc(p, align);
    return p;
}

uint8_t *__rust_alloc_zeroed(size_t size, size_t align)
{
    CHECK(size > 0, "VP: alloc_zeroed must be called with a size greater than 0");
    CHECK(POW2(align), "VP: alignment is a power of two");
    uint8_t *p = calloc(1, size);
    vp_on_alloc(p, align);
    return p;
}

struct Unit __rust_dealloc(uint8_t *ptr, size_t size, size_t align)
{
    CHECK(POW2(align), "VP: alignment is a power of two");
    CHECK(__CPROVER_OBJECT_SIZE(ptr) == size, "VP: block freed with the size it was allocated with");
    vp_on_free(ptr, align);
    free(ptr);
    return VoidUnit;
}

uint8_t *__rust_realloc(uint8_t *ptr, size_t old_size, size_t align, size_t new_size)
{
    CHECK(ptr != 0, "VP: realloc must be called with a non-null pointer");
    CHECK(new_size > 0, "VP: realloc must be called with a size greater than 0");
    CHECK(POW2(align), "VP: alignment is a power of two");
    CHECK(__CPROVER_OBJECT_SIZE(ptr) == old_size, "VP: block grown with the size it was allocated with");
    uint8_t *result = malloc(new_size);
    size_t n = new_size < old_size ? new_size : old_size;
    memcpy(result, ptr, n);
    vp_on_free(ptr, align);
    free(ptr);
    vp_on_alloc(result, align);
    return result;
}

struct Unit __rust_no_alloc_shim_is_unstable_v2(void) { return VoidUnit; }
