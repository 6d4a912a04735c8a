// Stands in for the C++ allocator of a program, to record what it does with
// storage. Every object ends at a page nothing can be read from or written to,
// and released ones become such pages too, so that going beyond an object or
// using it after its release ends the program; fresh storage is filled with
// VERIF_HEAP_FILL. With VERIF_HEAP_ABORT any fault ends the program. VERIF_HEAP names the file for the record:
// one line per take (1 address size array?), release (2 address array?) and
// overwritten surroundings (3 address) if VERIF_HEAP_TRACE is set, and a last
// line "end takes releases left faults first-fault".
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

namespace
{
const size_t PAGE = 4096;
const uint64_t MAGIC = 0x5eed5eed12345678ULL, GONE = 0xdeaddeaddeaddeadULL;
struct Head { uint64_t magic, id, size, pages; bool array; unsigned char* base; };
std::atomic_flag lock = ATOMIC_FLAG_INIT;
uint64_t takes = 0, releases = 0, faults = 0;
char fault[64] = "none";
struct Old { unsigned char* base; size_t bytes; };
const unsigned KEEP = 4000;
Old old[KEEP];
unsigned oldAt = 0;
int fd = -2;
bool trace = false;
unsigned char fill = 0xA5;
char buf[1 << 16];
size_t used = 0;

void Flush() { if (fd >= 0 && used) { size_t k = 0; while (k < used) { ssize_t n = write(fd, buf + k, used - k); if (n <= 0) break; k += n; } } used = 0; }
void Say(const char* t, int n) { if (used + n > sizeof buf) Flush(); memcpy(buf + used, t, n); used += n; }
void Open()
{
    if (fd != -2) return;
    const char* f = getenv("VERIF_HEAP");
    fd = f ? open(f, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644) : -1;
    trace = getenv("VERIF_HEAP_TRACE") != nullptr;
    if (const char* c = getenv("VERIF_HEAP_FILL")) fill = (unsigned char)strtoul(c, nullptr, 0);
}
void Fault(const char* what)
{
    if (getenv("VERIF_HEAP_ABORT")) { if (write(2, what, strlen(what)) + write(2, "\n", 1)) {} abort(); }
    if (!faults++) strncpy(fault, what, sizeof fault - 1);
}
void Note(const char* form, const void* p, unsigned long long n, int array)
{
    if (!trace) return;
    char t[96];
    Say(t, snprintf(t, sizeof t, form, (unsigned long long)p, n, array));
    Flush();
}
struct Hold { Hold() { while (lock.test_and_set(std::memory_order_acquire)) {} } ~Hold() { lock.clear(std::memory_order_release); } };

// Objects of up to a page live in slots of one page and a closed one, which are
// opened and closed again; a released slot is used again late.
const size_t SLOTS = 1 << 21;
struct Slot { uint64_t size; unsigned char state, array; };     // state: 1 taken, 2 released
unsigned char* area = nullptr;
Slot* slots = nullptr;
uint32_t* line = nullptr;               // released slots, first in first out
size_t fresh = 0, lineIn = 0, lineOut = 0;
void Out(const char* t) { if (write(2, t, strlen(t))) {} _exit(77); }

void* TakeSlot(size_t n, size_t room, bool array)
{
    Hold hold;
    Open();
    if (!area)
    {
        area = (unsigned char*)mmap(nullptr, SLOTS * 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        slots = (Slot*)mmap(nullptr, SLOTS * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        line = (uint32_t*)mmap(nullptr, SLOTS * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (area == MAP_FAILED || slots == MAP_FAILED || line == MAP_FAILED) Out("heap: no storage for the stand-in\n");
    }
    size_t k;
    if (lineIn - lineOut > KEEP) k = line[lineOut++ % SLOTS];
    else if (fresh < SLOTS) k = fresh++;
    else { Out("heap: no more slots for the stand-in\n"); return nullptr; }
    unsigned char* first = area + k * 2 * PAGE;
    if (mprotect(first, PAGE, PROT_READ | PROT_WRITE)) Out("heap: no more guards for the stand-in\n");
    unsigned char* p = first + PAGE - room;
    memset(first, 0xC3, p - first);
    memset(p, fill, n);
    memset(p + n, 0xC3, room - n);
    slots[k].size = n; slots[k].array = array; slots[k].state = 1;
    ++takes;
    Note("1 %llu %llu %d\n", p, n, array);
    return p;
}
void ReleaseSlot(unsigned char* p, bool array)
{
    Hold hold;
    Open();
    Note("2 %llu %llu %d\n", p, 0, array);
    size_t k = (p - area) / (2 * PAGE);
    unsigned char* first = area + k * 2 * PAGE;
    Slot& s = slots[k];
    if (s.state != 1) { Fault(s.state == 2 ? "second release" : "release of what was not taken"); return; }
    size_t room = first + PAGE - p;
    if (p >= first + PAGE || room < s.size || room - s.size > 15) { Fault("release of what was not taken"); return; }
    releases++;
    if (s.array != array) Fault("array released as one object or the reverse");
    for (unsigned char* c = p + s.size; c < first + PAGE; c++) if (*c != 0xC3) { Fault("written behind an object"); Note("3 %llu %llu %d\n", p, 0, 0); break; }
    for (unsigned char* c = first; c < p; c++) if (*c != 0xC3) { Fault("written before an object"); Note("3 %llu %llu %d\n", p, 0, 0); break; }
    s.state = 2;
    mprotect(first, PAGE, PROT_NONE);
    line[lineIn++ % SLOTS] = k;
}

void* Take(size_t n, bool array, size_t align = 16)
{
    if (align < 16) align = 16;
    // objects of odd sizes end at the guard up to their natural alignment
    size_t unit = align > 16 ? align : n % 16 == 0 ? 16 : n % 8 == 0 ? 8 : 16;
    size_t room = (n + unit - 1) / unit * unit;
    if (room > 0 && room <= PAGE && unit <= PAGE) return TakeSlot(n, room, array);
    size_t data = (room + PAGE - 1) / PAGE + (room == 0);
    size_t pages = data + 2;
    unsigned char* m = (unsigned char*)mmap(nullptr, pages * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { static const char t[] = "heap: no more storage for the stand-in\n"; if (write(2, t, sizeof t - 1)) {} _exit(77); }
    unsigned char* end = m + (pages - 1) * PAGE;
    if (mprotect(end, PAGE, PROT_NONE)) { static const char t[] = "heap: no more guards for the stand-in\n"; if (write(2, t, sizeof t - 1)) {} _exit(77); }
    unsigned char* p = end - room;
    Head* h = (Head*)(((uintptr_t)p & ~(PAGE - 1)) - PAGE);
    memset(p, fill, n);
    memset(p + n, 0xC3, room - n);
    // what lies before the object in its page
    unsigned char* first = (unsigned char*)((uintptr_t)p & ~(PAGE - 1));
    memset(first, 0xC3, p - first);
    h->magic = MAGIC; h->size = n; h->pages = pages; h->array = array; h->base = m;
    Hold hold;
    Open();
    h->id = ++takes;
    Note("1 %llu %llu %d\n", p, n, array);
    return p;
}
void Release(void* q, bool array)
{
    if (!q) return;
    unsigned char* p = (unsigned char*)q;
    if (area && p >= area && p < area + SLOTS * 2 * PAGE) { ReleaseSlot(p, array); return; }
    Head* h = (Head*)(((uintptr_t)p & ~(PAGE - 1)) - PAGE);
    Hold hold;
    Open();
    Note("2 %llu %llu %d\n", p, 0, array);
    // a second release, or one of what was never taken, ends the program here
    if (h->magic != MAGIC) { Fault("release of what was not taken"); return; }
    releases++;
    if (h->array != array) Fault("array released as one object or the reverse");
    unsigned char* end = h->base + (h->pages - 1) * PAGE;
    for (unsigned char* c = p + h->size; c < end; c++) if (*c != 0xC3) { Fault("written behind an object"); Note("3 %llu %llu %d\n", p, 0, 0); break; }
    for (unsigned char* c = (unsigned char*)((uintptr_t)p & ~(PAGE - 1)); c < p; c++) if (*c != 0xC3) { Fault("written before an object"); Note("3 %llu %llu %d\n", p, 0, 0); break; }
    h->magic = GONE;
    unsigned char* base = h->base;
    size_t bytes = h->pages * PAGE;
    // kept closed for a while
    madvise(base, bytes, MADV_DONTNEED);
    mprotect(base, bytes, PROT_NONE);
    Old& o = old[oldAt++ % KEEP];
    if (o.base) munmap(o.base, o.bytes);
    o.base = base; o.bytes = bytes;
}
__attribute__((destructor)) void End()
{
    Hold hold;
    Open();
    char t[200];
    Say(t, snprintf(t, sizeof t, "end %llu %llu %llu %llu %s\n", (unsigned long long)takes, (unsigned long long)releases,
                    (unsigned long long)(takes - releases), (unsigned long long)faults, fault));
    Flush();
}
}

extern "C" __attribute__((visibility("default"))) unsigned long long verif_heap_left() { Hold hold; return takes - releases; }
extern "C" __attribute__((visibility("default"))) unsigned long long verif_heap_faults() { Hold hold; return faults; }

void* operator new(size_t n) { return Take(n, false); }
void* operator new[](size_t n) { return Take(n, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Take(n, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Take(n, true); }
void* operator new(size_t n, std::align_val_t a) { return Take(n, false, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return Take(n, true, (size_t)a); }
void operator delete(void* p) noexcept { Release(p, false); }
void operator delete[](void* p) noexcept { Release(p, true); }
void operator delete(void* p, size_t) noexcept { Release(p, false); }
void operator delete[](void* p, size_t) noexcept { Release(p, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Release(p, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Release(p, true); }
void operator delete(void* p, std::align_val_t) noexcept { Release(p, false); }
void operator delete[](void* p, std::align_val_t) noexcept { Release(p, true); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { Release(p, false); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { Release(p, true); }
