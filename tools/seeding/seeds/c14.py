H='include/configor/details/encoding.hpp'
PRE='''
#include <configor/json.hpp>
#include <sstream>
#include <iostream>
using namespace configor;
'''
SEEDS=[
dict(id='s14-utf8-4byte-max',prop='C14',needs='a supplementary codepoint of plane 16 (U+100000 and above) written as UTF-8',breaks='codepoints from U+100000 on are refused by the UTF-8 encoder',
 edits=[(H,'''        else if (codepoint <= 0x10FFFF)
        {
            // 11110xxx''','''        else if (codepoint < 0x100000)
        {
            // 11110xxx''')],
 demo=PRE+'''int main(){ std::ostringstream o; encoding::utf8<char>::encode(o,0x10FFFD); return o.good() && o.str()=="\\xF4\\x8F\\xBF\\xBD" ? 0 : 1; }'''),
dict(id='s14-surrogate-bits',prop='C14',needs='a supplementary codepoint whose trail surrogate has its lowest bit set in bit 9 (e.g. U+10600) written as UTF-16',breaks='the trail surrogate loses a bit',
 edits=[(H,'trail_surrogate_max   = static_cast<uint32_t>(0x3FF);','trail_surrogate_max   = static_cast<uint32_t>(0x1FF);')],
 demo=PRE+'''int main(){ std::basic_stringstream<char16_t> o; encoding::utf16<char16_t>::encode(o,0x10600); auto s=o.str(); return s.size()==2 && s[0]==0xD801 && s[1]==0xDE00 ? 0 : 1; }'''),
dict(id='s14-lead-range',prop='C14',needs='a UTF-16 text with a supplementary codepoint of the last lead surrogate (U+10FC00 and above)',breaks='a valid pair led by DBFF is decoded as an error',
 edits=[(H,'return constants::lead_surrogate_begin <= codepoint && codepoint <= constants::lead_surrogate_end;','return constants::lead_surrogate_begin <= codepoint && codepoint < constants::lead_surrogate_end;')],
 demo=PRE+'''int main(){ const char16_t t[]={0xDBFF,0xDC01,0}; std::basic_istringstream<char16_t> i{std::u16string(t)}; uint32_t c=0; bool r=encoding::utf16<char16_t>::decode(i,c); return r && !i.fail() && c==0x10FC01 ? 0 : 1; }'''),
dict(id='s14-utf8-offset',prop='C14',needs='a three byte UTF-8 sequence; only the third entry of the offset table is wrong in one bit that the tests do not use? (U+0800..U+FFFF)',breaks='x',
 edits=[(H,'(codepoint >> 6) & 0x3F)));\n            os.put(static_cast<char_type>(0x80 | (codepoint & 0x3F)));\n        }\n        else\n','(codepoint >> 6) & 0x1F)));\n            os.put(static_cast<char_type>(0x80 | (codepoint & 0x3F)));\n        }\n        else\n')],
 demo=PRE+'''int main(){ std::ostringstream o; encoding::utf8<char>::encode(o,0x1F8FF); return o.str()=="\\xF0\\x9F\\xA3\\xBF" ? 0 : 1; }'''),
]
SEEDS[3].update(needs='a supplementary codepoint with bit 11 set written as UTF-8',breaks='the third byte of four byte sequences loses its top payload bit')
