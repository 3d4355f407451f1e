V='include/configor/details/value.hpp'
R=[]
def r(name,*edits): R.append((name,[(V,a,b) for a,b in edits]))
r('resize',("data().vector->insert(data().vector->end(), index - data().vector->size() + 1, basic_value());","data().vector->resize(index + 1);"))
r('resize2',("data().vector->insert(data().vector->end(), index - data().vector->size() + 1, basic_value());","data().vector->resize(index + 1, basic_value());"))
r('pushloop',("data().vector->insert(data().vector->end(), index - data().vector->size() + 1, basic_value());","while (data().vector->size() <= index) data().vector->push_back(basic_value());"))
r('emplace',("""            throw configor_invalid_key("operator[] called on a non-object type");
        }
        return (*data().object)[key];""","""            throw configor_invalid_key("operator[] called on a non-object type");
        }
        return data().object->emplace(key, basic_value()).first->second;"""))
r('emplace2',("""            throw configor_invalid_key("operator[] called on a non-object type");
        }
        return (*data().object)[key];""","""            throw configor_invalid_key("operator[] called on a non-object type");
        }
        auto it = data().object->find(key);
        if (it == data().object->end())
            it = data().object->insert(std::make_pair(key, basic_value())).first;
        return it->second;"""))
r('selfkey',("""        if (!is_object())
        {
            throw configor_invalid_key("operator[] called on a non-object object");
        }
        return (*data().object)[key];""","""        return (*this)[typename object_type::key_type(key)];"""))
r('copyswap',("            basic_value tmp{ rhs };\n            this->swap(tmp);","            basic_value(rhs).swap(*this);"))
r('earlyret',("""        if (this != &rhs)
        {
            basic_value tmp{ rhs };
            this->swap(tmp);
        }
        return *this;""","""        if (this == &rhs)
            return *this;
        basic_value tmp(rhs);
        std::swap(type_, tmp.type_);
        std::swap(data_, tmp.data_);
        return *this;"""))
r('moveassign',("            basic_value old{ std::move(*this) };\n            this->swap(rhs);","            basic_value old{ std::move(rhs) };\n            this->swap(old);"))
r('swaphand',("        std::swap(type_, rhs.type_);\n        std::swap(data_, rhs.data_);","        const auto t = type_;\n        const data_type d = data_;\n        type_ = rhs.type_;\n        data_ = rhs.data_;\n        rhs.type_ = t;\n        rhs.data_ = d;"))
r('atvec',("""        if (index >= data().vector->size())
        {
            throw std::out_of_range("operator[] index out of range");
        }
        return (*data().vector)[index];
    }

    template""","""        return data().vector->at(index);
    }

    template"""))
r('atmap',("""        auto iter = data().object->find(key);
        if (iter == data().object->end())
        {
            throw std::out_of_range("operator[] key out of range");
        }
        return iter->second;
    }

    template""","""        return data().object->at(key);
    }

    template"""))
r('sizechain',("""        switch (type())
        {
        case value_constant::null:
            return 0;
        case value_constant::array:
            return data().vector->size();
        case value_constant::object:
            return data().object->size();
        default:
            return 1;
        }""","""        if (is_array())
            return data().vector->size();
        if (is_object())
            return data().object->size();
        return is_null() ? 0 : 1;"""))
r('emptysize',("""        if (is_null())
            return true;

        if (is_object())
            return data().object->empty();

        if (is_array())
            return data().vector->empty();

        return false;""","        return size() == 0;"))
r('ltchain',("""        else if (lhs_type == value_constant::floating && rhs_type == value_constant::integer)
        {
            return (lhs.data().floating < static_cast<float_type>(rhs.data().integer));
        }

        return false;""","""        if (lhs.is_number() && rhs.is_number())
        {
            const float_type x = lhs.is_integer() ? static_cast<float_type>(lhs.data().integer) : lhs.data().floating;
            const float_type y = rhs.is_integer() ? static_cast<float_type>(rhs.data().integer) : rhs.data().floating;
            return x < y;
        }
        return false;"""))
r('eqchain',("""        if (lhs.type() == rhs.type())
        {
            switch (lhs.type())
            {
            case value_constant::array:
                return (*lhs.data().vector == *rhs.data().vector);""","""        if (lhs.is_string() && rhs.is_string())
            return lhs.data().string->compare(*rhs.data().string) == 0;
        if (lhs.type() == rhs.type())
        {
            switch (lhs.type())
            {
            case value_constant::array:
                return lhs.data().vector->size() == rhs.data().vector->size() && (*lhs.data().vector == *rhs.data().vector);"""))
r('neself',("        return !(lhs == rhs);","        return (lhs == rhs) ? false : true;"))
r('strcmp<',("return (*lhs.data().string) < (*rhs.data().string);","return lhs.data().string->compare(*rhs.data().string) < 0;"))
r('boollt',("return (lhs.data().boolean < rhs.data().boolean);","return !lhs.data().boolean && rhs.data().boolean;"))
r('copydeleg',("""        case value_constant::string:
            accessor::template construct<value_constant::string>(*this, *other.data().string);
            break;
        case value_constant::integer:
            accessor::template construct<value_constant::integer>(*this, other.data().integer);
            break;
        case value_constant::floating:
            accessor::template construct<value_constant::floating>(*this, other.data().floating);
            break;
        case value_constant::boolean:
            accessor::template construct<value_constant::boolean>(*this, other.data().boolean);
            break;
        default:
            break;""","""        case value_constant::string:
            accessor::template construct<value_constant::string>(*this, *other.data().string);
            break;
        default:
            data_ = other.data_;
            break;"""))
r('movedflt',("""    basic_value(basic_value&& other) noexcept
        : type_{ other.type() }
        , data_{ other.data() }
    {
        other.type(value_constant::null);
        other.data().object = nullptr;
    }""","""    basic_value(basic_value&& other) noexcept
        : type_{ value_constant::null }
        , data_{}
    {
        swap(other);
    }"""))
r('destroyif',("""        switch (v.type())
        {
        case value_constant::object:
            destroy<typename value_type::object_type>(v.data().object);
            break;
        case value_constant::array:
            destroy<typename value_type::array_type>(v.data().vector);
            break;
        case value_constant::string:
            destroy<typename value_type::string_type>(v.data().string);
            break;
        default:
            break;
        }""","""        if (v.is_object())
            destroy<typename value_type::object_type>(v.data().object);
        else if (v.is_array())
            destroy<typename value_type::array_type>(v.data().vector);
        else if (v.is_string())
            destroy<typename value_type::string_type>(v.data().string);"""))
r('newdelete',("        static allocator_type<_Ty> allocator;\n        allocator_traits::destroy(allocator, ptr);","        allocator_type<_Ty> allocator;\n        allocator_traits::destroy(allocator, ptr);"))
r('resetnew',("""        destroy(v);
        v.type(value_constant::null);
        construct<_Ty>(v, std::forward<_Args>(args)...);
        v.type(_Ty);""","""        value_type tmp;
        construct<_Ty>(tmp, std::forward<_Args>(args)...);
        tmp.type(_Ty);
        v.swap(tmp);"""))
