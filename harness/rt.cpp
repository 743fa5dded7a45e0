// Parts of the C and C++ libraries that are only in their compiled form, for
// the symbolic executor. Whatever the code under test uses of it is linked in.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <list>
#include <map>
#include <system_error>
#include <unordered_map>

extern "C" {

char* strchr(const char* s, int c)
{
    for (;; ++s)
    {
        if (*s == char(c))
            return const_cast<char*>(s);
        if (!*s)
            return nullptr;
    }
}

char* strrchr(const char* s, int c)
{
    char* r = nullptr;
    for (;; ++s)
    {
        if (*s == char(c))
            r = const_cast<char*>(s);
        if (!*s)
            return r;
    }
}

int strncmp(const char* a, const char* b, size_t n)
{
    for (; n; --n, ++a, ++b)
    {
        if (*a != *b)
            return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
        if (!*a)
            break;
    }
    return 0;
}

int strcmp(const char* a, const char* b)
{
    return strncmp(a, b, SIZE_MAX);
}

size_t strnlen(const char* s, size_t n)
{
    size_t i = 0;
    while (i < n && s[i])
        ++i;
    return i;
}

size_t strspn(const char* s, const char* set)
{
    size_t i = 0;
    while (s[i] && strchr(set, s[i]))
        ++i;
    return i;
}

size_t strcspn(const char* s, const char* set)
{
    size_t i = 0;
    while (s[i] && !strchr(set, s[i]))
        ++i;
    return i;
}

char* strpbrk(const char* s, const char* set)
{
    s += strcspn(s, set);
    return *s ? const_cast<char*>(s) : nullptr;
}

char* strstr(const char* s, const char* t)
{
    for (;; ++s)
    {
        size_t i = 0;
        while (t[i] && s[i] == t[i])
            ++i;
        if (!t[i])
            return const_cast<char*>(s);
        if (!*s)
            return nullptr;
    }
}

void* memrchr(const void* p, int c, size_t n)
{
    auto* s = static_cast<const unsigned char*>(p);
    while (n-- > 0)
        if (s[n] == (unsigned char)c)
            return const_cast<unsigned char*>(s + n);
    return nullptr;
}

void* memmem(const void* p, size_t n, const void* q, size_t k)
{
    auto* s = static_cast<const char*>(p);
    auto* t = static_cast<const char*>(q);
    for (size_t i = 0; i + k <= n; ++i)
    {
        size_t j = 0;
        while (j < k && s[i + j] == t[j])
            ++j;
        if (j == k)
            return const_cast<char*>(s + i);
    }
    return nullptr;
}

static int rt_errno;
int* __errno_location()
{
    return &rt_errno;
}

// The value of a digit, 99 for others.
struct Digits
{
    unsigned char v[256] = {};
    constexpr Digits()
    {
        for (int c = 0; c < 256; ++c)
            v[c] = (unsigned char)(c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10
                                   : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99);
    }
};
static constexpr Digits digits;

static unsigned long long rt_strto(const char* s, char** end, int base, bool is_signed)
{
    auto* p = s;
    while (*p == ' ' || (*p >= 9 && *p <= 13))
        ++p;
    bool neg = *p == '-';
    if (*p == '-' || *p == '+')
        ++p;
    auto digit = [&](char c)
    {
        int d = digits.v[(unsigned char)c];
        return d < base ? d : -1;
    };
    if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X'))
    {
        base = 16;
        if (digit(p[2]) >= 0)
            p += 2;
    }
    else if (base == 0)
        base = *p == '0' ? 8 : 10;
    bool any = false, over = false;
    unsigned long long v = 0;
    for (int d; (d = digit(*p)) >= 0; ++p)
    {
        any = true;
        if (int bits = base == 16 ? 4 : base == 8 ? 3 : base == 2 ? 1 : 0)
        {
            over |= v >> (64 - bits) != 0;
            v = v << bits | unsigned(d);
        }
        else
        {
            over |= v > (~0ull - unsigned(d)) / unsigned(base);
            v = v * unsigned(base) + unsigned(d);
        }
    }
    if (end)
        *end = const_cast<char*>(any ? p : s);
    if (is_signed)
    {
        unsigned long long most = (1ull << 63) - !neg;
        if (over || v > most)
        {
            rt_errno = 34;
            return most;
        }
    }
    else if (over)
    {
        rt_errno = 34;
        return ~0ull;
    }
    return neg ? 0 - v : v;
}

unsigned long strtoul(const char* s, char** e, int b) { return rt_strto(s, e, b, false); }
unsigned long long strtoull(const char* s, char** e, int b) { return rt_strto(s, e, b, false); }
long strtol(const char* s, char** e, int b) { return long(rt_strto(s, e, b, true)); }
long long strtoll(const char* s, char** e, int b) { return (long long)rt_strto(s, e, b, true); }

div_t div(int a, int b) { return {a / b, a % b}; }
ldiv_t ldiv(long a, long b) { return {a / b, a % b}; }
lldiv_t lldiv(long long a, long long b) { return {a / b, a % b}; }

char __libc_single_threaded = 1;
}

namespace std
{
    // A plain search tree: no balance, and so no colours but the header's.
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
    {
        if (x->_M_right)
        {
            x = x->_M_right;
            while (x->_M_left)
                x = x->_M_left;
            return x;
        }
        auto* y = x->_M_parent;
        while (x == y->_M_right)
        {
            x = y;
            y = y->_M_parent;
        }
        return x->_M_right != y ? y : x;
    }

    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
    {
        return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
    }

    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
    {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
            return x->_M_right;
        if (x->_M_left)
        {
            auto* y = x->_M_left;
            while (y->_M_right)
                y = y->_M_right;
            return y;
        }
        auto* y = x->_M_parent;
        while (x == y->_M_left)
        {
            x = y;
            y = y->_M_parent;
        }
        return y;
    }

    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
    {
        return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
    }

    // Sorted insertion is the usual case: the tree is rebuilt from its nodes
    // in order whenever its size is a power of two, which keeps it shallow.
    static _Rb_tree_node_base* rt_build(_Rb_tree_node_base*& next, size_t n)
    {
        if (n == 0)
            return nullptr;
        auto* left = rt_build(next, n / 2);
        auto* x = next;
        next = x->_M_right; // the list
        x->_M_left = left;
        if (left)
            left->_M_parent = x;
        x->_M_right = rt_build(next, n - n / 2 - 1);
        if (x->_M_right)
            x->_M_right->_M_parent = x;
        return x;
    }

    void _Rb_tree_insert_and_rebalance(const bool insert_left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                       _Rb_tree_node_base& h) throw()
    {
        x->_M_parent = p;
        x->_M_left = x->_M_right = nullptr;
        x->_M_color = _S_black;
        if (insert_left)
        {
            p->_M_left = x; // also makes h._M_left = x for an empty tree
            if (p == &h)
            {
                h._M_parent = x;
                h._M_right = x;
            }
            else if (p == h._M_left)
                h._M_left = x;
        }
        else
        {
            p->_M_right = x;
            if (p == h._M_right)
                h._M_right = x;
        }
        // The node count follows the header in every tree.
        size_t n = reinterpret_cast<size_t*>(&h + 1)[0] + 1;
        if (n < 4 || (n & (n - 1)))
            return;
        // Link the nodes in order, last first.
        _Rb_tree_node_base* list = nullptr;
        auto* y = h._M_right;
        for (size_t i = 0; i < n; ++i)
        {
            auto* prev = i + 1 < n ? _Rb_tree_decrement(y) : nullptr;
            // The right pointer of y is not needed by decrement once y has
            // been passed, except to climb: climbing uses left pointers only.
            y->_M_right = list;
            list = y;
            y = prev;
        }
        h._M_parent = rt_build(list, n);
        h._M_parent->_M_parent = &h;
    }

    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
    {
        if (h._M_left == z)
            h._M_left = _Rb_tree_increment(z);
        if (h._M_right == z)
            h._M_right = _Rb_tree_decrement(z);
        auto put = [&](_Rb_tree_node_base* old, _Rb_tree_node_base* x)
        {
            if (h._M_parent == old)
                h._M_parent = x;
            else if (old->_M_parent->_M_left == old)
                old->_M_parent->_M_left = x;
            else
                old->_M_parent->_M_right = x;
            if (x)
                x->_M_parent = old->_M_parent;
        };
        if (!z->_M_left)
            put(z, z->_M_right);
        else if (!z->_M_right)
            put(z, z->_M_left);
        else
        {
            auto* y = z->_M_right;
            while (y->_M_left)
                y = y->_M_left;
            put(y, y->_M_right);
            put(z, y);
            y->_M_left = z->_M_left;
            y->_M_left->_M_parent = y;
            y->_M_right = z->_M_right;
            if (y->_M_right)
                y->_M_right->_M_parent = y;
        }
        if (!h._M_parent)
            h._M_left = h._M_right = &h;
        return z;
    }

    namespace __detail
    {
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
        {
            size_t k = 13;
            while (k < n)
                k = 2 * k + 3;
            _M_next_resize = k;
            return k;
        }

        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
        {
            if (elt + ins <= _M_next_resize && bkt > 1)
                return {false, 0};
            return {true, _M_next_bkt(elt + ins > 2 * bkt ? elt + ins : 2 * bkt)};
        }

        void _List_node_base::_M_hook(_List_node_base* const p) noexcept
        {
            _M_next = p;
            _M_prev = p->_M_prev;
            p->_M_prev->_M_next = this;
            p->_M_prev = this;
        }

        void _List_node_base::_M_unhook() noexcept
        {
            _M_prev->_M_next = _M_next;
            _M_next->_M_prev = _M_prev;
        }

        void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
        {
            if (this == last)
                return;
            last->_M_prev->_M_next = this;
            first->_M_prev->_M_next = last;
            this->_M_prev->_M_next = first;
            auto* tmp = this->_M_prev;
            this->_M_prev = last->_M_prev;
            last->_M_prev = first->_M_prev;
            first->_M_prev = tmp;
        }

        void _List_node_base::_M_reverse() noexcept
        {
            auto* t = this;
            do
            {
                std::swap(t->_M_next, t->_M_prev);
                t = t->_M_prev;
            } while (t != this);
        }

        void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
        {
            bool xe = x._M_next == &x, ye = y._M_next == &y;
            std::swap(x._M_next, y._M_next);
            std::swap(x._M_prev, y._M_prev);
            if (ye)
                x._M_next = x._M_prev = &x;
            else
                x._M_next->_M_prev = x._M_prev->_M_next = &x;
            if (xe)
                y._M_next = y._M_prev = &y;
            else
                y._M_next->_M_prev = y._M_prev->_M_next = &y;
        }
    }

    size_t _Hash_bytes(const void* p, size_t n, size_t seed)
    {
        auto* s = static_cast<const unsigned char*>(p);
        size_t h = seed;
        for (size_t i = 0; i < n; ++i)
            h = h * 31 + s[i];
        return h;
    }
}
