S='include/configor/details/stream.hpp'
R=[]
def r(name,*edits): R.append((name,list(edits)))
# the string source is a get area
r('get-area',(S,'''    explicit fast_buffer_istreambuf(const char_type* buffer)
        : buffer_(buffer)
        , index_(0)
        , size_(traits_type::length(buffer))
    {
    }
''','''    explicit fast_buffer_istreambuf(const char_type* buffer)
    {
        char_type* b = const_cast<char_type*>(buffer);
        this->setg(b, b, b + traits_type::length(buffer));
    }
};
template <typename _CharTy>
class unused_buffer_istreambuf : public std::basic_streambuf<_CharTy>
{
public:
    using char_type   = _CharTy;
    using traits_type = typename std::basic_streambuf<char_type>::traits_type;
    using int_type    = typename std::basic_streambuf<char_type>::int_type;
    using string_type = std::basic_string<char_type>;

    explicit unused_buffer_istreambuf(const char_type* buffer)
        : buffer_(buffer)
        , index_(0)
        , size_(traits_type::length(buffer))
    {
    }
'''))
r('no-block-read',(S,'''    virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
    {
        const auto copied = str_.copy(s, static_cast<size_t>(num), index_);
        index_ += copied;
        return static_cast<std::streamsize>(copied);
    }
''',''))
r('no-block-write',(S,'''    virtual std::streamsize xsputn(const char_type* s, std::streamsize num) override
    {
        str_.append(s, static_cast<size_t>(num));
        return num;
    }
''',''))
r('early-return',(S,'''        if (c != traits_type::eof())
        {
            str_.push_back(traits_type::to_char_type(c));
        }
        return c;
''','''        if (traits_type::eq_int_type(c, traits_type::eof()))
            return traits_type::not_eof(c);
        str_ += traits_type::to_char_type(c);
        return c;
'''))
r('buffer-min',(S,'''        if (index_ + static_cast<size_t>(num) >= size_)
            num = static_cast<std::streamsize>(size_ - index_);
        if (num == 0)
            return 0;
        traits_type::copy(s, buffer_ + index_, static_cast<size_t>(num));
        index_ += static_cast<size_t>(num);
        return num;
''','''        const size_t rest  = size_ - index_;
        const size_t count = std::min(rest, static_cast<size_t>(num));
        for (size_t i = 0; i < count; ++i)
            s[i] = buffer_[index_++];
        return static_cast<std::streamsize>(count);
'''))
r('buffer-pointer',(S,'''        int_type c = underflow();
        if (index_ < size_)
            ++index_;
        return c;
''','''        return index_ < size_ ? traits_type::to_int_type(buffer_[index_++]) : traits_type::eof();
'''))
r('string-at',(S,'''        if (index_ >= str_.size())
            return traits_type::eof();
        return traits_type::to_int_type(str_[index_]);
''','''        if (index_ < str_.length())
            return traits_type::to_int_type(*(str_.data() + index_));
        return traits_type::eof();
'''))
r('adapter-loop',(S,'''        if (num)
        {
            for (std::size_t i = 0; i < num; ++i)
                s[i] = this->read();
        }
''','''        while (num-- > 0)
            *s++ = this->read();
'''),(S,'''            if (has_last_char_)
            {
                // read last char
                s[0]           = traits_type::to_char_type(last_char_);
                has_last_char_ = false;
                ++s;
                --rest;
            }
            adapter_.read(s, static_cast<size_t>(rest));
            return num;
''','''            if (has_last_char_)
            {
                *s++           = traits_type::to_char_type(last_char_);
                has_last_char_ = false;
                --rest;
            }
            if (rest > 0)
                adapter_.read(s, static_cast<size_t>(rest));
            return num;
'''))
r('file-fread',(S,'''        std::streamsize count = 0;
        for (; count < num; ++count)
        {
            const int_type c = uflow();
            if (traits_type::eq_int_type(c, traits_type::eof()))
                break;
            s[count] = traits_type::to_char_type(c);
        }
        return count;
''','''        std::streamsize count = 0;
        if (has_last_char_ && num > 0 && last_char_ != traits_type::eof())
        {
            s[count++]     = traits_type::to_char_type(last_char_);
            has_last_char_ = false;
        }
        if (count < num)
            count += static_cast<std::streamsize>(std::fread(s + count, 1, static_cast<size_t>(num - count), file_));
        return count;
'''))
