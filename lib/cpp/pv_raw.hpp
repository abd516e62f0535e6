#include <type_traits>
template <class T> static char pv_class()
{
    return std::is_enum<T>::value ? 'e' : std::is_floating_point<T>::value ? 'f' : std::is_class<T>::value ? 'c'
        : std::is_union<T>::value ? 'c' : std::is_signed<T>::value ? 'i' : 'u';
}
#define Z(T) printf("Z " #T " %zu %zu\n", sizeof(T), size_t(__alignof__(T)));
#define M(T, S, m) { typedef std::remove_reference<decltype(((S*)0)->m)>::type X; \
    typedef std::remove_all_extents<X>::type E; \
    printf("M " #S " " #m " %zu %zu %zu %c\n", (size_t)offsetof(S, m), sizeof(X), sizeof(E), pv_class<E>()); }
#define V(T, m) printf("V " #T " " #m " %llu\n", (unsigned long long)(uint32_t)T::m);
