I='include/configor/details/iterator.hpp'
V='include/configor/details/value.hpp'
R=[
('advance-direct',[(I,'            std::advance(object_it_, 1);','            ++object_it_;'),(I,'            std::advance(array_it_, 1);','            array_it_ += 1;'),(I,'            std::advance(array_it_, off);','            array_it_ = array_it_ + off;')]),
('advance-back',[(I,'            std::advance(object_it_, -1);','            --object_it_;'),(I,'            std::advance(array_it_, -1);','            array_it_--;')]),
('minus-direct',[(I,'        return operator+(-off);','        iterator ret(*this);\n        ret -= off;\n        return ret;')]),
('lt-if',[(I,'''        switch (value_->type())
        {
        case value_constant::object:
            throw configor_invalid_iterator("cannot compare iterators with object type");
        case value_constant::array:
            return array_it_ < other.array_it_;
        default:
            return primitive_it_ < other.primitive_it_;
        }''','''        const auto kind = value_->type();
        if (kind == value_constant::object)
            throw configor_invalid_iterator("cannot compare iterators with object type");
        if (kind == value_constant::array)
            return other.array_it_ > array_it_;
        return other.primitive_it_ > primitive_it_;''')]),
('key-first',[(I,'''        check_data();
        check_iterator();

        if (value_->type() != value_constant::object)
            throw configor_invalid_iterator("cannot use key() with non-object type");
        return object_it_->first;''','''        check_data();
        if (value_->type() != value_constant::object)
            throw configor_invalid_iterator("cannot use key() with non-object type");
        check_iterator();
        const auto& member = *object_it_;
        return member.first;''')]),
('value-if',[(I,'''        switch (value_->type())
        {
        case value_constant::object:
            return object_it_->second;
        case value_constant::array:
            return *array_it_;
        default:
            break;
        }
        return *value_;''','''        if (value_->is_array())
            return array_it_[0];
        if (value_->is_object())
            return (*object_it_).second;
        return *value_;''')]),
('order-swap',[(I,'return !other.operator<(*this);','return !(other < *this);'),(I,'return !operator<(other);','return !(*this < other);')]),
('end-via-begin',[(I,'array_it_ = value_->data().vector->end();','auto* list = value_->data().vector;\n            array_it_ = list->begin() + static_cast<difference_type>(list->size());')]),
('range-check-dist',[(I,'if (array_it_ == value_->data().vector->end())','if (!(array_it_ < value_->data().vector->end()))')]),
('post-via-plus',[(I,'''        iterator old = (*this);
        ++(*this);
        return old;''','''        iterator old(*this);
        operator++();
        return iterator(old);''')]),
('rev-value',[(I,'        return std::prev(this->current).value();','        _IterTy tmp = this->current;\n        --tmp;\n        return tmp.value();')]),
]
