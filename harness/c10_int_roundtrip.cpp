//PROPERTY C10
//JOB trip_i8 radix=2..36
//JOB trip_u8 radix={2,8,10,16,36}
//JOB trip_i16 radix={8,10,16,36}
//JOB trip_i64 radix={8,16} window=0..3 mask=15
//JOB trip_i64 radix=10 window={0,3} mask=15
//JOB trip_i64 radix=10 window=1..2 mask=1
//JOB trip_i16 radix=2..36 tier=thorough
//JOB trip_i64 radix=2..36 window=0..3 mask=63 tier=thorough
//COVERS negative grouped minimum
//BOUNDS every 8-bit value in every radix, every 16-bit value in four radices (thorough: all), 64-bit values in windows of 2 to 16 (thorough: 64) at zero and at both extremes; both sign modes, all separators; UTF-8 text for 8-bit values and UTF-32 for the others
//OUTSIDE 64-bit values away from the windows
#define NO_IO
#include "lib.h"
#include "ref.h"

template <typename T, typename S>
static void trip(T v) {
    unsigned radix = symx_param("radix", 10);
    unsigned sign = choose(2, "sign"), sep = choose(3, "sep");
    cmp::integer_format f{radix, sign ? cmp::sign_status::always_show : cmp::sign_status::only_when_negative,
                          sep == 0 ? cmp::thousands_separator::none : sep == 1 ? cmp::thousands_separator::comma : cmp::thousands_separator::period};
    S text = cmp::format_integer<S>(v, f);
    if (v < 0) symx_cover("negative");
    if (sep && text.size() > 4) symx_cover("grouped");
    if (std::is_signed_v<T> && v == std::numeric_limits<T>::min()) symx_cover("minimum");
    T back{};
    bool failed = false;
    try {
        back = cmp::parse_integer<T>(text, f);
    } catch (const cmp::parse_failed &) { failed = true; }
    symx_assert(!failed, "formatted text parses with the same format");
    symx_assert(back == v, "parsing the formatted text yields the number");
}
ENTRY trip_i8() { trip<signed char, std::u8string>(sym<signed char>("value")); }
ENTRY trip_u8() { trip<unsigned char, std::u32string>(sym<unsigned char>("value")); }
ENTRY trip_i16() { trip<short, std::u32string>(sym<short>("value")); }
ENTRY trip_i64() {
    long long d = sym<unsigned char>("offset") & symx_param("mask", 15), v = 0;
    switch (symx_param("window", 0)) {
    case 0: v = d - 32; break;
    case 1: v = std::numeric_limits<long long>::max() - d; break;
    case 2: v = std::numeric_limits<long long>::min() + d; break;
    case 3: v = 999999999LL - 32 + d; break;
    }
    trip<long long, std::u32string>(v);
}
