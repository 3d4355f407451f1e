S='include/configor/details/stream.hpp'
PRE='''
#include <configor/json.hpp>
#include <string>
#include <cstdio>
using namespace configor;
'''
SEEDS=[
dict(id='s19-sign',prop='C19',also=[],needs='the unit 0xFF in a string that is parsed',breaks='a unit of the string is converted by sign extension, so that 0xFF is taken for the end of the text',
 edits=[(S,'''        if (index_ >= str_.size())
            return traits_type::eof();
        return traits_type::to_int_type(str_[index_]);
''','''        if (index_ >= str_.size())
            return traits_type::eof();
        return static_cast<int_type>(str_[index_]);
''')],
 demo=PRE+r'''
int main(){ std::string s = "a\xff" "b"; detail::fast_string_istreambuf<char> b(s); std::istream is(&b); std::string o; int c; while ((c = is.get()) != EOF) o.push_back((char)c); return o == s ? 0 : 1; }'''),
dict(id='s19-sink-zero',prop='C19',also=[],needs='a NUL unit written through the string sink one unit at a time',breaks='the string sink drops NUL units that are written one by one',
 edits=[(S,'''        if (c != traits_type::eof())
        {
            str_.push_back(traits_type::to_char_type(c));
''','''        if (c > 0)
        {
            str_.push_back(traits_type::to_char_type(c));
''')],
 demo=PRE+r'''
int main(){ std::string s; detail::fast_string_ostreambuf<char> b(s); std::ostream os(&b); os.put('a'); os.put('\0'); os.put('b'); return s == std::string("a\0b", 3) ? 0 : 1; }'''),
dict(id='s19-buffer-block',prop='C19',also=[],needs='a block read that starts in the middle of a C string and asks for more than is left',breaks='the block read of a buffer ignores what was consumed before and runs past its end',
 edits=[(S,'''        if (index_ + static_cast<size_t>(num) >= size_)
            num = static_cast<std::streamsize>(size_ - index_);
''','''        if (static_cast<size_t>(num) > size_)
            num = static_cast<std::streamsize>(size_ - index_);
''')],
 demo=PRE+r'''
int main(){ char t[16] = "abcdef"; t[7] = 'X'; char d[16] = {0}; detail::fast_buffer_istreambuf<char> b(t); std::istream is(&b); is.get(); is.get(); is.read(d, 6); return is.gcount() == 4 && std::string(d, 4) == "cdef" ? 0 : 1; }'''),
dict(id='s19-string-block',prop='C19',also=[],needs='a block read from a string source',breaks='the block read of a string keeps one place for a terminator, so it delivers one unit less than asked for',
 edits=[(S,'''        const auto copied = str_.copy(s, static_cast<size_t>(num), index_);
''','''        const auto copied = num > 1 ? str_.copy(s, static_cast<size_t>(num) - 1, index_) : 0;
''')],
 demo=PRE+r'''
int main(){ std::string t = "abcdef"; char d[16] = {0}; detail::fast_string_istreambuf<char> b(t); std::istream is(&b); is.read(d, 3); return is.gcount() == 3 && is && std::string(d, 3) == "abc" ? 0 : 1; }'''),
dict(id='s19-oadapter-eof',prop='C19',also=[],needs='the unit 0xFF written to an output adapter one unit at a time',breaks='the sink adapter compares the unit instead of the int with the end, and drops 0xFF',
 edits=[(S,'''            if (c != EOF)
            {
                adapter_.write(traits_type::to_char_type(c));
            }
            return c;
''','''            const char_type ch = traits_type::to_char_type(c);
            if (ch != static_cast<char_type>(EOF))
            {
                adapter_.write(ch);
            }
            return c;
''')],
 demo=PRE+r'''
struct A : oadapter { std::string s; void write(const char c) override { s.push_back(c); } };
int main(){ A a; oadapterstream os(a); os.put('a'); os.put('\xff'); os.put('b'); return a.s == "a\xff" "b" ? 0 : 1; }'''),
dict(id='s19-oadapter-block',prop='C19',also=[],needs='a block with a NUL unit written to an output adapter',breaks='the default block write of an adapter stops at the first NUL unit',
 edits=[(S,'''            for (std::size_t i = 0; i < size; ++i)
                this->write(str[i]);
''','''            for (std::size_t i = 0; i < size && str[i] != 0; ++i)
                this->write(str[i]);
''')],
 demo=PRE+r'''
struct A : oadapter { std::string s; using oadapter::write; void write(const char c) override { s.push_back(c); } };
int main(){ A a; oadapterstream os(a); os.write("a\0b", 3); return a.s == std::string("a\0b", 3) ? 0 : 1; }'''),
]
