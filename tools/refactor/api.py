P='include/configor/details/parser.hpp'
S='include/configor/details/serializer.hpp'
J='include/configor/json.hpp'
W='include/configor/details/wrapper.hpp'
R=[]
def r(name,*edits): R.append((name,list(edits)))
r('parse-string-inplace',(P,'''        detail::fast_string_istreambuf<_SourceCharTy> buf{ str };
        std::basic_istream<_SourceCharTy>             is{ &buf };
        return parse(is, options);
''','''        value_type result;
        parse<_SourceCharTy>(result, str, options);
        return result;
'''))
r('prepare-range-for',(J,'''        std::for_each(options.begin(), options.end(), [&](const option& option) { option(*this); });
    }

    virtual void begin()''','''        for (const option& o : options)
            o(*this);
    }

    virtual void begin()'''))
r('float-format-flags',(S,'''        os_.setf(os.flags(), std::ios_base::floatfield);
''','''        const auto format = os.flags() & std::ios_base::floatfield;
        os_.flags((os_.flags() & ~std::ios_base::floatfield) | format);
'''))
r('ctor-precision',(J,'''        this->os_ << std::setprecision(os.precision());
        os.width(0);  // clear width
''','''        os.width(0);
        this->os_.precision(os.precision());
'''))
r('ctor-width-first',(J,'''        , pretty_print_(os.width() > 0)
''','''        , pretty_print_(false)
'''),(J,'''        , indent_(static_cast<uint8_t>(os.width()), os.fill())
    {
''','''        , indent_(static_cast<uint8_t>(os.width()), os.fill())
    {
        const auto step = os.width();
        pretty_print_   = step != 0;
'''))
r('option-functor',(J,'''    static option with_unicode_escaping(bool enabled)
    {
        return [=](json_serializer& s) { s.unicode_escaping_ = enabled; };
    }
''','''    struct escaping
    {
        bool enabled;
        void operator()(json_serializer& s) const
        {
            s.unicode_escaping_ = enabled;
        }
    };

    static option with_unicode_escaping(bool enabled)
    {
        return escaping{ enabled };
    }
'''))
r('encoding-composed',(J,'''    static option with_encoding()
    {
        return [=](json_parser& p)
        {
            p.template set_source_encoding<_Encoding>();
            p.template set_target_encoding<_Encoding>();
        };
    }
''','''    static option with_encoding()
    {
        const option source = with_source_encoding<_Encoding>();
        const option target = with_target_encoding<_Encoding>();
        return [source, target](json_parser& p)
        {
            target(p);
            source(p);
        };
    }
'''))
r('wrap-in-helper',(W,'''            value_type c{};
            config_type::parse(c, in);
            const_cast<_Ty&>(wrapper.v_) = c.template get<_Ty>();
''','''            const value_type c = config_type::parse(in);
            _Ty result = c.template get<_Ty>();
            const_cast<_Ty&>(wrapper.v_) = std::move(result);
'''))
r('wrap-out-early',(W,'''        if (s)
        {
            config_type::dump(out, static_cast<value_type>(wrapper.v_));
        }
        return out;
''','''        if (!s)
            return out;
        const value_type document(wrapper.v_);
        config_type::dump(out, document);
        return out;
'''))
r('hexfloat-switch',(J,'''        if ((this->os_.flags() & std::ios_base::floatfield) == (std::ios_base::fixed | std::ios_base::scientific))
''','''        const auto both = std::ios_base::fixed | std::ios_base::scientific;
        if ((this->os_.flags() & both) == both)
'''),(J,'''            this->os_.unsetf(std::ios_base::floatfield);
''','''            this->os_.setf(std::ios_base::fmtflags(0), std::ios_base::floatfield);
'''))
r('neutral-locale',(S,'''template <typename _ValTy, typename _TargetCharTy>
class basic_serializer
''','''inline std::locale neutral_locale(const std::locale& l)
{
    const auto cats = std::locale::ctype | std::locale::collate;
    return std::locale(std::locale::classic(), l, cats);
}

template <typename _ValTy, typename _TargetCharTy>
class basic_serializer
'''),(S,'''        os_.imbue(std::locale(std::locale::classic(), os.getloc(), std::locale::collate | std::locale::ctype));
''','''        os_.imbue(neutral_locale(os.getloc()));
'''))
r('dump-stringstream',(S,'''        typename _Args::template string_type<_TargetCharTy> result;
        dump<_TargetCharTy>(result, v, options);
        return result;
''','''        std::basic_ostringstream<_TargetCharTy> os;
        dump<_TargetCharTy>(os, v, options);
        return os.str();
'''),(S,'''#include <ostream>           // std::basic_ostream
''','''#include <ostream>           // std::basic_ostream
#include <sstream>
'''))
r('handler-helper',(P,'''        catch (...)
        {
            if (err_handler_)
                err_handler_->handle(std::current_exception());
            else
                throw;
        }
    }

    inline void set_error''','''        catch (...)
        {
            report();
        }
    }

    void report()
    {
        if (!err_handler_)
            throw;
        const std::exception_ptr error = std::current_exception();
        err_handler_->handle(error);
    }

    inline void set_error'''))
r('setf-two-steps',(J,'''            s.os_.setf(floatflags, std::ios_base::floatfield);
''','''            s.os_.unsetf(std::ios_base::floatfield);
            s.os_.setf(floatflags & std::ios_base::floatfield);
'''))
r('indent-members',(J,'''            s.indent_       = indent<target_char_type>{ indent_step, indent_char };
            s.pretty_print_ = indent_step > 0;
''','''            s.pretty_print_ = indent_step != 0;
            indent<target_char_type> next{ indent_step, indent_char };
            std::swap(s.indent_, next);
'''))
r('encodings-helper',(S,'''        s.template set_source_encoding<_DefaultEncoding>();
        s.template set_target_encoding<_DefaultEncoding>();
        s.prepare(options);
        s.dump(v);
    }
''','''        setup(s);
        s.prepare(options);
        s.dump(v);
    }

    template <typename _Ser>
    static void setup(_Ser& s)
    {
        s.template set_target_encoding<_DefaultEncoding>();
        s.template set_source_encoding<_DefaultEncoding>();
    }
'''))
