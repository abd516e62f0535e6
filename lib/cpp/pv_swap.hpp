// Driver of raw swap: request "<id> <type> S x <hex>"; the message sits in an exact-size heap block.
#include "pv_std.hpp"
static std::string pv_hex(const void* data, size_t n)
{
    static const char d[] = "0123456789abcdef";
    const unsigned char* p = static_cast<const unsigned char*>(data);
    std::string out;
    for (size_t i = 0; i < n; ++i) { out += d[p[i] >> 4]; out += d[p[i] & 15]; }
    return out.empty() ? std::string("-") : out;
}
struct pv_entry { const char* name; ptrdiff_t (*fn)(uint8_t*); };
template <class T> static ptrdiff_t pv_swap(uint8_t* p)
{
    return reinterpret_cast<uint8_t*>(prophy::swap(reinterpret_cast<T*>(p))) - p;
}
static int pv_main(const pv_entry* table, int argc, char** argv)
{
    if (argc < 2) return 3;
    FILE* f = fopen(argv[1], "r");
    if (!f) return 3;
    std::vector<char> line(1 << 22);
    while (fgets(line.data(), int(line.size()), f))
    {
        int id, type, pos = 0;
        char op, order;
        if (sscanf(line.data(), "%d %d %c %c %n", &id, &type, &op, &order, &pos) < 4) return 3;
        std::vector<uint8_t> in;
        for (const char* p = line.data() + pos; p[0] > ' ' && p[0] != '-' && p[1] > ' '; p += 2)
        {
            unsigned v; sscanf(p, "%2x", &v); in.push_back(uint8_t(v));
        }
        printf("@%d\n", id);
        fflush(stdout);
        size_t n = in.size();
        // 'S': exact block; 'G': the same message between guard bytes
        size_t guard = op == 'G' ? 32 : 0;
        uint8_t* block = static_cast<uint8_t*>(malloc(n + 2 * guard + !n));
        memset(block, 0xE7, n + 2 * guard);
        if (n) memcpy(block + guard, in.data(), n);
        ptrdiff_t r = table[type].fn(block + guard);
        bool clean = true;
        for (size_t i = 0; i < guard; ++i) if (block[i] != 0xE7 || block[guard + n + i] != 0xE7) clean = false;
        printf("=%d r=%td g=%d d=%s end\n", id, r, int(clean), pv_hex(block + guard, n).c_str());
        fflush(stdout);
        free(block);
    }
    printf("done\n");
    fflush(stdout);
    return 0;
}
