J='include/configor/json.hpp'
E='include/configor/details/encoding.hpp'
PRE='''
#include <configor/json.hpp>
#include <string>
#include <csignal>
#include <unistd.h>
#include <sys/resource.h>
using namespace configor;
typedef json::value V;
'''
SEEDS=[
dict(id='s25-exp-wrap',prop='C25',needs='an exponent of 65536 or more',breaks='the counter of the power loop wraps around below the exponent, so that it never ends',
 edits=[(J,'''        for (; exponent; exponent >>= 1, base *= base)
            if (exponent & 1)
                power *= base;
''','''        for (uint16_t i = 0; i < exponent; ++i)
            power *= base;
''')],
 demo=PRE+r'''
int main(){ alarm(20); for (const char* t : {"1e+9999", "0.0e-99999"}) try { json::parse(t); } catch (const configor_deserialization_error&) {} return 0; }'''),
dict(id='s25-fraction-rec',prop='C25',also=[],needs='a number with hundreds of thousands of fraction digits',breaks='the digits of a fraction are read by recursion, so that a long one exhausts the stack',
 edits=[(J,'''        while (true)
        {
            const auto ch = read_next();
            if (ch == 'e' || ch == 'E')
                return scan_exponent();

            if (is_digit(ch))
            {
                fraction *= static_cast<float_type>(0.1);
                number_float_ += static_cast<float_type>(static_cast<uint32_t>(current_ - '0')) * fraction;
            }
            else
                break;
        }
''','''        if (scan_fraction(fraction))
            return scan_exponent();
'''),(J,'''    uint32_t read_escaped_codepoint()
''','''    bool scan_fraction(typename value_type::float_type fraction)
    {
        using float_type = typename value_type::float_type;

        const auto ch = read_next();
        if (!is_digit(ch))
            return ch == 'e' || ch == 'E';

        fraction *= static_cast<float_type>(0.1);
        number_float_ += static_cast<float_type>(static_cast<uint32_t>(current_ - '0')) * fraction;
        return scan_fraction(fraction);
    }

    uint32_t read_escaped_codepoint()
''')],
 demo=PRE+r'''
int main(){ struct rlimit r = {1 << 20, 1 << 20}; setrlimit(RLIMIT_STACK, &r); if (!getenv("AGAIN")) { setenv("AGAIN", "1", 1); execl("/proc/self/exe", "demo", (char*)0); }
 std::string t = "0." + std::string(1000000, '5'); auto v = json::parse(t); return v.is_floating() ? 0 : 1; }'''),
dict(id='s25-continuation',prop='C25',also=[],needs='a string whose last character before the end of the text is a backslash and a line feed',breaks='the blanks after an escaped line end are skipped without looking for the end of the text',
 edits=[(J,'''                default:
                {
                    fail("invalid escaped character", current_);
                }
''','''                case 'z':
                {
                    // drop the blanks that follow, and the stop mark
                    while (read_next() <= ' ')
                        ;
                    if (current_ != '|')
                        fail("invalid escaped character", current_);
                    break;
                }

                default:
                    fail("invalid escaped character", current_);
''')],
 demo=PRE+r'''
int main(){ alarm(20); try { json::parse("\"abc\\z  "); return 1; } catch (const configor_deserialization_error&) { return 0; } }'''),
]
