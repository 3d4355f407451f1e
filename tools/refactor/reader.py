J='include/configor/json.hpp'; P='include/configor/details/parser.hpp'; E='include/configor/details/encoding.hpp'
R=[]
def r(name,*edits): R.append((name,list(edits)))
r('digit-helper',(J,'''            number_float_ = number_float_ * 10 + static_cast<float_type>(current_ - '0');

            const auto digit = static_cast<integer_type>(current_ - '0');''','''            const auto digit = static_cast<integer_type>(digit_value(current_));
            number_float_    = number_float_ * 10 + static_cast<float_type>(digit);
'''),(J,'''    inline bool is_digit(uint32_t ch) const
''','''    static uint32_t digit_value(uint32_t ch)
    {
        return ch - '0';
    }

    inline bool is_digit(uint32_t ch) const
'''))
r('control-range',(J,'''            case 0x00:
            case 0x01:
            case 0x02:
            case 0x03:
            case 0x04:
            case 0x05:
            case 0x06:
            case 0x07:
            case 0x08:
            case 0x09:
            case 0x0A:
            case 0x0B:
            case 0x0C:
            case 0x0D:
            case 0x0E:
            case 0x0F:
            case 0x10:
            case 0x11:
            case 0x12:
            case 0x13:
            case 0x14:
            case 0x15:
            case 0x16:
            case 0x17:
            case 0x18:
            case 0x19:
            case 0x1A:
            case 0x1B:
            case 0x1C:
            case 0x1D:
            case 0x1E:
            case 0x1F:
            {
                fail("invalid control character", current_);
            }

''',''),(J,'''            switch (current_)
            {
            case '\\"':
            {
                // end of string''','''            if (current_ < 0x20)
                fail("invalid control character", current_);

            switch (current_)
            {
            case '\\"':
            {
                // end of string'''))
r('hex-loop',(J,'''        for (const auto factor : { 12, 8, 4, 0 })
        {
            const auto ch = read_next();
            if (ch >= '0' && ch <= '9')
            {
                code += ((ch - '0') << factor);
            }
            else if (ch >= 'A' && ch <= 'F')
            {
                code += ((ch - 'A' + 10) << factor);
            }
            else if (ch >= 'a' && ch <= 'f')
            {
                code += ((ch - 'a' + 10) << factor);
            }
            else
            {
                fail("'\\\\u' must be followed by 4 hex digits, but got", ch);
            }
        }''','''        for (int i = 0; i < 4; ++i)
        {
            const auto ch    = read_next();
            uint32_t   digit = 0;
            if (is_digit(ch))
                digit = ch - '0';
            else if ('a' <= ch && ch <= 'f')
                digit = ch - 'a' + 10;
            else if ('A' <= ch && ch <= 'F')
                digit = ch - 'A' + 10;
            else
                fail("'\\\\u' must be followed by 4 hex digits, but got", ch);
            code = (code << 4) | digit;
        }'''))
r('escape-table',(J,'''                case '\\"':
                    oss << '\\"';
                    break;
                case '\\\\':
                    oss << '\\\\';
                    break;
                case '/':
                    oss << '/';
                    break;
''','''                case '\\"':
                case '\\\\':
                case '/':
                    oss.put(static_cast<target_char_type>(current_));
                    break;
'''))
r('whitespace-helper',(J,'''            while (current_ == ' ' || current_ == '\\t' || current_ == '\\n' || current_ == '\\r')
                read_next();
''','''            while (is_space(current_))
                read_next();
'''),(J,'''    inline bool is_digit(uint32_t ch) const
''','''    static bool is_space(uint32_t ch)
    {
        switch (ch)
        {
        case ' ':
        case '\\t':
        case '\\n':
        case '\\r':
            return true;
        default:
            return false;
        }
    }

    inline bool is_digit(uint32_t ch) const
'''))
r('comment-rewrite',(J,'''            while (true)
            {
                read_next();
                if (current_ == '\\n' || current_ == '\\r')
                {
                    // end of comment
                    break;
                }

                if (this->is_.eof() || current_ == '\\0')
                {
                    break;
                }
            }''','''            do
                read_next();
            while (current_ != '\\n' && current_ != '\\r' && current_ != '\\0' && !this->is_.eof());'''))
r('comment-state',(J,'''                if (current_ != '*')
                {
                    read_next();
                }
                else if (read_next() == '/')
                {
                    // end of comment
                    read_next();
                    break;
                }''','''                const bool star = (current_ == '*');
                read_next();
                if (star && current_ == '/')
                {
                    read_next();
                    return;
                }'''))
r('literal-loop',(J,'''        for (const auto ch : text)
        {
            if (static_cast<uint32_t>(ch) != current_)
            {''','''        for (auto it = text.begin(); it != text.end(); ++it)
        {
            if (current_ != static_cast<uint32_t>(*it))
            {'''))
r('scan-order',(J,'''        if (this->is_.eof())
            return token_type::end_of_input;

        token_type result = token_type::uninitialized;''','''        token_type result = token_type::uninitialized;
        if (this->is_.eof())
        {
            result = token_type::end_of_input;
            return result;
        }
'''))
r('sign-early',(J,'''        if (current_ == '-' || current_ == '+')
        {
            is_negative_ = (current_ == '-');
            read_next();
        }
''','''        const bool minus = current_ == '-';
        if (minus || current_ == '+')
            read_next();
        is_negative_ = minus;
'''))
r('overflow-branches',(J,'''            if (overflow)
            {
                // only the magnitude is needed
            }
            else if (is_negative_)
            {
                overflow = number_integer_ < (limits::min() + digit) / 10;
                if (!overflow)
                    number_integer_ = number_integer_ * 10 - digit;
            }
            else
            {
                overflow = number_integer_ > (limits::max() - digit) / 10;
                if (!overflow)
                    number_integer_ = number_integer_ * 10 + digit;
            }
''','''            if (!overflow)
            {
                overflow = is_negative_ ? number_integer_ < (limits::min() + digit) / 10
                                        : number_integer_ > (limits::max() - digit) / 10;
            }
            if (!overflow)
                number_integer_ = is_negative_ ? number_integer_ * 10 - digit : number_integer_ * 10 + digit;
'''))
r('surrogate-helper',(J,'''                    uint32_t codepoint = read_escaped_codepoint();
                    if (encoding::unicode::is_trail_surrogate(codepoint))
                    {
                        fail("trail surrogate must follow a lead surrogate, but got", codepoint);
                    }
                    if (encoding::unicode::is_lead_surrogate(codepoint))
                    {
                        if (read_next() != '\\\\' || read_next() != 'u')
                        {
                            fail("lead surrogate must be followed by trail surrogate, but got", current_);
                        }

                        const auto lead_surrogate  = codepoint;
                        const auto trail_surrogate = read_escaped_codepoint();

                        if (!encoding::unicode::is_trail_surrogate(trail_surrogate))
                        {
                            fail("surrogate U+D800...U+DBFF must be followed by U+DC00...U+DFFF, but got",
                                 trail_surrogate);
                        }
                        codepoint = encoding::unicode::decode_surrogates(lead_surrogate, trail_surrogate);
                    }
''','''                    const uint32_t codepoint = read_escape_sequence();
'''),(J,'''    uint32_t read_escaped_codepoint()
''','''    uint32_t read_escape_sequence()
    {
        const uint32_t first = read_escaped_codepoint();
        if (encoding::unicode::is_trail_surrogate(first))
            fail("trail surrogate must follow a lead surrogate, but got", first);
        if (!encoding::unicode::is_lead_surrogate(first))
            return first;

        for (const char expected : { '\\\\', 'u' })
        {
            if (read_next() != static_cast<uint32_t>(expected))
                fail("lead surrogate must be followed by trail surrogate, but got", current_);
        }
        const uint32_t second = read_escaped_codepoint();
        if (!encoding::unicode::is_trail_surrogate(second))
            fail("surrogate U+D800...U+DBFF must be followed by U+DC00...U+DFFF, but got", second);
        return encoding::unicode::decode_surrogates(first, second);
    }

    uint32_t read_escaped_codepoint()
'''))
r('parse-array-helper',(P,'''            c = value_constant::array;
            while (true)
            {
                token = scan();

                bool is_end = false;
                switch (token)
                {
                case token_type::literal_true:
                case token_type::literal_false:
                case token_type::literal_null:
                case token_type::value_string:
                case token_type::value_integer:
                case token_type::value_float:
                case token_type::begin_array:
                case token_type::begin_object:
                    break;
                default:
                    is_end = true;
                    break;
                }
                if (is_end)
                    break;

                c.data().vector->push_back(_ValTy());
                do_parse(c.data().vector->back(), token, false);

                // read ','
                token = scan();
                if (token != token_type::value_separator)
                    break;
            }
            if (token != token_type::end_array)
                fail(token, token_type::end_array);
            break;
''','''            c = value_constant::array;
            parse_elements(*c.data().vector);
            break;
'''),(P,'''    void fail(token_type actual_token, const std::string& msg = "unexpected token")
''','''    static bool begins_value(token_type token)
    {
        return token == token_type::literal_true || token == token_type::literal_false
               || token == token_type::literal_null || token == token_type::value_string
               || token == token_type::value_integer || token == token_type::value_float
               || token == token_type::begin_array || token == token_type::begin_object;
    }

    void parse_elements(typename _ValTy::array_type& elements)
    {
        token_type token = scan();
        while (begins_value(token))
        {
            elements.emplace_back();
            do_parse(elements.back(), token, false);
            token = scan();
            if (token != token_type::value_separator)
                break;
            token = scan();
        }
        if (token != token_type::end_array)
            fail(token, token_type::end_array);
    }

    void fail(token_type actual_token, const std::string& msg = "unexpected token")
'''))
r('parse-array-local',(P,'''                c.data().vector->push_back(_ValTy());
                do_parse(c.data().vector->back(), token, false);
''','''                _ValTy element;
                do_parse(element, token, false);
                c.data().vector->push_back(std::move(element));
'''))
r('parse-object-move',(P,'''                c.data().object->emplace(key, object);
''','''                c.data().object->emplace(std::move(key), std::move(object));
'''))
r('parse-object-insert',(P,'''                c.data().object->emplace(key, object);
''','''                c.data().object->insert(std::make_pair(key, object));
'''))
r('parse-object-do',(P,'''            while (true)
            {
                token = scan();
                if (token != token_type::value_string)
                    break;

                string_type key{};
                get_string(key);

                token = scan();
                if (token != token_type::name_separator)
                    fail(token, token_type::name_separator);

                _ValTy object;
                do_parse(object, token);
                c.data().object->emplace(key, object);

                // read ','
                token = scan();
                if (token != token_type::value_separator)
                    break;
            }
''','''            do
            {
                token = scan();
                if (token != token_type::value_string)
                    break;

                string_type key;
                get_string(key);

                const auto separator = scan();
                if (separator != token_type::name_separator)
                    fail(separator, token_type::name_separator);

                _ValTy member{};
                do_parse(member, separator, true);
                c.data().object->emplace(key, std::move(member));

                token = scan();
            } while (token == token_type::value_separator);
'''))
r('parse-string-local',(P,'''            c = value_constant::string;
            get_string(*c.data().string);
''','''        {
            string_type text;
            get_string(text);
            c = std::move(text);
        }
'''))
r('parse-integer-local',(P,'''            c = value_constant::integer;
            get_integer(c.data().integer);
''','''        {
            typename _ValTy::integer_type number = 0;
            get_integer(number);
            c = number;
        }
'''))
r('handler-helper',(P,'''            if (err_handler_)
                err_handler_->handle(std::current_exception());
            else
                throw;
''','''            if (!err_handler_)
                throw;
            const auto error = std::current_exception();
            err_handler_->handle(error);
'''))
r('readnext-early',(J,'''        if (this->source_decoder_(this->is_, current_))
        {
            if (!this->is_.good())
            {
                fail("decoding failed with codepoint", current_);
            }
        }
        else
        {
            current_ = 0;
        }
        return current_;''','''        uint32_t codepoint = 0;
        if (!this->source_decoder_(this->is_, codepoint))
            return current_ = 0;

        current_ = codepoint;
        if (!this->is_.good())
            fail("decoding failed with codepoint", codepoint);
        return codepoint;'''))
r('exponent-loop',(J,'''        for (; exponent; exponent >>= 1, base *= base)
            if (exponent & 1)
                power *= base;
''','''        while (exponent != 0)
        {
            if (exponent % 2 == 1)
                power *= base;
            exponent /= 2;
            base *= base;
        }
'''))
r('utf8-loop',(E,'''        for (auto i = extra_bytes_to_read; i > 0; --i)
        {''','''        for (int i = 0; i < static_cast<int>(extra_bytes_to_read); i++)
        {'''))
r('utf8-mask',(E,'''            codepoint = (codepoint << 6) + static_cast<uint32_t>(byte);
        }
        codepoint -= utf8_offsets[extra_bytes_to_read];
''','''            codepoint = (codepoint << 6) | (byte & 0x3F);
        }
'''),(E,'''        codepoint = first_byte;

        // continuation''','''        codepoint = first_byte;

        // marker bits
        static const uint8_t masks[] = { 0x7F, 0x1F, 0x0F, 0x07 };

        // continuation'''),(E,'''        // read continuation bytes
''','''        codepoint &= masks[extra_bytes_to_read];

        // read continuation bytes
'''))
r('utf8-encode-helper',(E,'''            os.put(static_cast<char_type>(0xE0 | (codepoint >> 12)));
            os.put(static_cast<char_type>(0x80 | ((codepoint >> 6) & 0x3F)));
            os.put(static_cast<char_type>(0x80 | (codepoint & 0x3F)));
''','''            const char_type units[] = { static_cast<char_type>(0xE0 | (codepoint >> 12)),
                                        static_cast<char_type>(0x80 | ((codepoint >> 6) & 0x3F)),
                                        static_cast<char_type>(0x80 | (codepoint & 0x3F)) };
            for (const auto unit : units)
                os.put(unit);
'''))
