"""Behaviour-preserving edits, written to find out where a check raises an alarm on, or gives no answer about, code that is right.
   python3 tools/benign.py [-j N] [ID...]   applies each in a private copy bound over /repo, builds, runs the tests and the checks named."""
import os, sys, subprocess, tempfile, shutil, json, re
from concurrent.futures import ThreadPoolExecutor
V='/verif'
B={}
def ben(i,props,f,*subs): B[i]=(props.split(),f,subs)
U='packages/drafter/src/utils/Utf8.h'; SM='packages/drafter/src/SourceMapUtils.cc'; BB='packages/apib-parser/src/markdown-parser/ByteBuffer.cc'; BH='packages/apib-parser/src/markdown-parser/ByteBuffer.h'
MT='packages/apib/src/MediaType.cc'; MS='packages/drafter/src/backend/MediaTypeS11n.cc'; CA='packages/drafter/src/refract/Cardinal.h'; OP='packages/drafter/src/options.cc'; R='packages/drafter/src/refract/'
IE=R+'InfoElements.cc'; RG=R+'Registry.cc'; EX=R+'dsd/Extend.cc'; IX=R+'IsExpandableVisitor.cc'; VU=R+'VisitorUtils.cc'; VH=R+'VisitorUtils.h'
# ---- text
ben('u-cont-helper','C01',U,('''                    if (!is_continuation(first[1]) || !is_continuation(first[2]))
                        return { replacement, first + 3 };
''','''                    const bool wellformed = is_continuation(first[1]) && is_continuation(first[2]);
                    if (!wellformed)
                        return { replacement, first + 3 };
'''))
ben('u-payload','C01 C02',U,('''            template <typename It>
            typename std::enable_if<is_iterator<It>::value, std::pair<codepoint, It> >::type //
            decode_one(''','''            constexpr codepoint payload(char c) noexcept
            {
                return static_cast<unsigned char>(c) & 0x3F;
            }

            template <typename It>
            typename std::enable_if<is_iterator<It>::value, std::pair<codepoint, It> >::type //
            decode_one('''),('''                        | ((static_cast<unsigned char>(first[1]) & 0x3F) << 12) //
                        | ((static_cast<unsigned char>(first[2]) & 0x3F) << 6)  //
                        | (static_cast<unsigned char>(first[3]) & 0x3F);''','''                        | (payload(first[1]) << 12) //
                        | (payload(first[2]) << 6)  //
                        | payload(first[3]);'''))
ben('u-merge-ifs','C01',U,('''                    // check for oversized
                    if (result < 0x10000)
                        return { replacement, first };

                    // check for overlong sequences
                    if (result > 0x10FFFF)
                        return { replacement, first };

                    return { result, first };''','''                    // out of the range of four byte sequences
                    const bool valid = 0x10000 <= result && result <= 0x10FFFF;
                    return { valid ? result : replacement, first };'''))
ben('u-flat-ifs','C01 C02',U,('''                if (cp < 0x80) { // single byte
                    std::advance(first, 1);

                    return { cp, first };
                } else if (cp < 0xC0) { // stray continuation byte
                    std::advance(first, 1);

                    return { replacement, first };
                } else if (cp < 0xE0)''','''                if (cp < 0x80) { // single byte
                    return { cp, ++first };
                }

                if (cp < 0xC0) { // stray continuation byte
                    return { replacement, ++first };
                }

                if (cp < 0xE0)'''))
ben('u-put','C02',U,('''            template <typename It>
            typename std::enable_if<is_iterator<It>::value, It>::type //
            encode(''','''            template <typename It>
            It put(std::uint8_t b, It out)
            {
                *out = static_cast<char>(b);
                ++out;
                return out;
            }

            template <typename It>
            typename std::enable_if<is_iterator<It>::value, It>::type //
            encode('''),('''                    {
                        byte b1 = ((c >> 6) & 0b00011111) | 0b11000000;
                        *out = reinterpret_cast<const char&>(b1);
                        ++out;
                    }

                    {
                        byte b2 = (c & 0b00111111) | 0b10000000;
                        *out = reinterpret_cast<const char&>(b2);
                        ++out;
                    }

                } else if (c < 0x10000)''','''                    out = put(((c >> 6) & 0b00011111) | 0b11000000, out);
                    out = put((c & 0b00111111) | 0b10000000, out);

                } else if (c < 0x10000)'''))
ben('s-while','C03',SM,('''        size_t i = 1;
        for (; it != e; ++it, ++i) {
            if (*it == '\\n')
                out.push_back(i);
        }
''','''        size_t position = 0;
        while (it != e) {
            ++position;
            if (*it == '\\n')
                out.push_back(position);
            ++it;
        }
'''))
ben('s-isnl','C03',SM,('''    const NewLinesIndex GetLinesEndIndex(''','''    namespace
    {
        bool isNewLine(utils::utf8::codepoint c)
        {
            return c == '\\n';
        }
    }

    const NewLinesIndex GetLinesEndIndex('''),("if (*it == '\\n')","if (isNewLine(*it))"))
ben('s-end','C04',SM,('''        auto annotationPositionIt = std::upper''','''        const auto rangeEnd = range.location + range.length;
        auto annotationPositionIt = std::upper'''),('linesEndIndex.end(), range.location + range.length);','linesEndIndex.end(), rangeEnd);'),('if (linesEndIndex.back() < (range.location + range.length)) {','if (rangeEnd > linesEndIndex.back()) {'),('(range.location + range.length) - *(std::prev','rangeEnd - *(std::prev'))
ben('s-order','C04',SM,('''            out.fromLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
            out.fromColumn = range.location - *std::prev(annotationPositionIt) + 1;
''','''            const auto lineStart = std::prev(annotationPositionIt);
            out.fromColumn = range.location - *lineStart + 1;
            out.fromLine = annotationPositionIt - linesEndIndex.begin();
'''))
ben('b-rangefor','C05',BB,('''    CharactersRangeSet characterMap;

    for (BytesRangeSet::const_iterator it = rangeSet.begin(); it != rangeSet.end(); ++it) {
        CharactersRange characterRange = BytesRangeToCharactersRange(*it, byteBuffer);
        characterMap.push_back(characterRange);
    }
''','''    CharactersRangeSet characterMap;

    for (const auto& bytesRange : rangeSet)
        characterMap.push_back(BytesRangeToCharactersRange(bytesRange, byteBuffer));
'''))
ben('b-index-for','C05',BB,('''    for (BytesRangeSet::const_iterator it = rangeSet.begin(); it != rangeSet.end(); ++it) {
        CharactersRange characterRange = BytesRangeToCharactersRange(*it, index);
        characterMap.push_back(characterRange);
    }
''','''    for (size_t i = 0; i < rangeSet.size(); ++i) {
        const BytesRange& bytes = rangeSet[i];
        characterMap.push_back(BytesRangeToCharactersRange(bytes, index));
    }
'''))
ben('b-count-for','C05',BB,('''    size_t i = 0, j = 0;
    while (i < len && s[i]) {
        i += UTF8_CHAR_LEN(s[i]);
        j++;
    }
    return j;''','''    size_t count = 0;
    for (size_t i = 0; i < len && s[i]; ++count)
        i += UTF8_CHAR_LEN(s[i]);
    return count;'''))
ben('b-charloc','C05',BB,('''    size_t charLocation = 0;
    if (workRange.location == index.size())
        charLocation = index[index.size() - 1] + 1;
    else if (workRange.location > 0)
        charLocation = index[workRange.location];

    size_t charLength = 0;
    if (workRange.length > 0) {
        size_t pos = workRange.location + workRange.length;
        if (pos >= index.size()) {
            // this code branch is there to be compatioble with strlen_utf8()
            charLength = index[index.size() - 1];
            charLength -= charLocation - 1;
        } else {
            charLength = index[pos];
            charLength -= charLocation;
        }
    }
''','''    auto characterAt = [&index](size_t pos) { return pos < index.size() ? index[pos] : index.back() + 1; };

    const size_t charLocation = workRange.location > 0 ? characterAt(workRange.location) : 0;

    size_t charLength = 0;
    if (workRange.length > 0)
        charLength = characterAt(workRange.location + workRange.length) - charLocation;
'''))
ben('b-build-for','C06',BB,('''        while (charLen) {
            index[pos - charLen] = charPos;
            charLen--;
        }
''','''        for (size_t i = pos - charLen; i < pos; ++i)
            index[i] = charPos;
'''))
ben('b-build-fill','C06',BB,('''        pos += charLen;

        while (charLen) {
            index[pos - charLen] = charPos;
            charLen--;
        }
''','''        std::fill(index.begin() + pos, index.begin() + pos + charLen, charPos);
        pos += charLen;
'''))
ben('b-build-order','C06',BB,('''    while (source[pos] && pos < len) {''','''    while (pos < len && source[pos]) {'''),('    index.resize(byteBuffer.length());\n','    index.resize(len);\n'))
ben('b-map-flat','C07',BB,('''            // Sundown adds an extra newline on the source input if needed.
            if (it->location <= length && it->length - (length - it->location) == 1) {
                s << byteBuffer.substr(it->location, length - it->location);
                return s.str();
            } else {
                // Wrong map
                return ByteBuffer();
            }
''','''            const bool extraNewline = it->location <= length && it->length - (length - it->location) == 1;
            if (!extraNewline)
                return ByteBuffer(); // Wrong map

            // Sundown adds an extra newline on the source input if needed.
            s << byteBuffer.substr(it->location, length - it->location);
            return s.str();
'''))
ben('b-map-string','C07',BB,('''    ByteBufferStream s;
    for (BytesRangeSet::const_iterator it = rangeSet.begin(); it != rangeSet.end(); ++it) {
''','''    ByteBuffer s;
    for (auto it = rangeSet.begin(); it != rangeSet.end(); ++it) {
'''),('''                s << byteBuffer.substr(it->location, length - it->location);
                return s.str();''','''                s += byteBuffer.substr(it->location, length - it->location);
                return s;'''),('''        s << byteBuffer.substr(it->location, it->length);
    }

    return s.str();''','''        s += byteBuffer.substr(it->location, it->length);
    }

    return s;'''))
ben('b-append','C08',BH,('''            if (this->empty() || val.front().location != this->back().location + this->back().length) {
                this->insert(this->end(), val.begin(), val.end());
            } else {
                // merge
                this->back().length += val.front().length;

                if (val.size() > 1) {
                    this->insert(this->end(), ++val.begin(), val.end());
                }
            }
''','''            auto first = val.begin();
            if (!this->empty() && this->back().location + this->back().length == first->location) {
                // merge
                this->back().length += first->length;
                ++first;
            }

            this->insert(this->end(), first, val.end());
'''))
# ---- media types
ben('m-iequal','C09',MT,('''        return (lhs.size() == rhs.size())
            && (std::equal( //
                lhs.cbegin(),
                lhs.cend(),
                rhs.cbegin(),
                [](char lhs, char rhs) { //
                    return std::tolower(lhs) == std::tolower(rhs);
                }));
''','''        if (lhs.size() != rhs.size())
            return false;

        for (std::string::size_type i = 0; i < lhs.size(); ++i)
            if (std::tolower(lhs[i]) != std::tolower(rhs[i]))
                return false;

        return true;
'''))
ben('m-appl','C09',MT,('''bool apib::isJSON(const media_type& t) noexcept
{
    return iequal(t.type, APPLICATION_TYPE) //
        && iequal(syntaxType(t), JSON_SUBTYPE);
}''','''bool apib::isJSON(const media_type& t) noexcept
{
    if (!iequal(t.type, APPLICATION_TYPE))
        return false;

    return iequal(syntaxType(t), JSON_SUBTYPE);
}'''),('        if (t.suffix.empty())\n            return t.subtype;\n        return t.suffix;','        return t.suffix.empty() ? t.subtype : t.suffix;'))
ben('m-switch','C10',MS,('''            if (c == '\\\\' || c == '"')
                out << '\\\\' << c;
            else if (c == '\\r')
                out << "\\\\r";
            else
                out << c;
''','''            switch (c) {
                case '\\\\':
                case '"':
                    out << '\\\\' << c;
                    break;
                case '\\r':
                    out << "\\\\r";
                    break;
                default:
                    out << c;
            }
'''))
ben('m-anyof','C10',MS,('''        if (end(v) == std::find_if(begin(v), end(v), [](const char c) { //
                return is_tspecial(c) || std::isspace(c) || std::iscntrl(c);
            }))
            return (out << v);

        return s8_quoted_string(out, v);''','''        const bool quoted = std::any_of(begin(v), end(v), [](const char c) { //
            return is_tspecial(c) || std::isspace(c) || std::iscntrl(c);
        });

        return quoted ? s8_quoted_string(out, v) : (out << v);'''))
ben('m-params','C10',MS,('''    if (!obj.parameters.empty()) {
        for (const auto& p : obj.parameters) {
            const auto& key = std::get<0>(p);
            if (!key.empty()) {
                out << "; " << std::get<0>(p) << '=';
                s8_value(out, std::get<1>(p));
            }
        }
    }
''','''    for (const auto& p : obj.parameters) {
        const auto& key = std::get<0>(p);
        if (key.empty())
            continue;

        out << "; " << key << '=';
        s8_value(out, std::get<1>(p));
    }
'''))
ben('m-loop-isspecial','C10',MS,('''        for (const auto& r : { '(', ')', '<', '>', '@', ',', ';', ':', '\\\\', '"', '/', '[', ']', '?', '=' }) {
            if (c == r)
                return true;
        }
        return false;''','''        static const std::string specials = "()<>@,;:\\\\\\"/[]?=";
        return specials.find(c) != std::string::npos;'''))
ben('c-plus','C12',CA,('''        return (lhs == cardinal::open() || rhs == cardinal::open()
                   || lhs.data() > cardinal::open().data() - rhs.data()) ? // saturate, sum not representable
            cardinal::open() :
            cardinal{ lhs.data() + rhs.data() };''','''        if (!finite(lhs) || !finite(rhs))
            return cardinal::open();

        const auto room = std::numeric_limits<cardinal::value_type>::max() - rhs.data();
        return lhs.data() > room ? cardinal::open() : cardinal{ lhs.data() + rhs.data() };'''))
ben('c-times','C12',CA,('''        return (lhs == cardinal::empty() || rhs == cardinal::empty()) ?
            cardinal::empty() :
            ((lhs''','''        return lhs == cardinal::empty() ? cardinal::empty() : rhs == cardinal::empty() ?
            cardinal::empty() :
            ((lhs'''))
ben('o-null','C26',OP,('''    return opts ? opts->format : DRAFTER_SERIALIZE_YAML;''','''    if (opts == nullptr)
        return DRAFTER_SERIALIZE_YAML;

    return opts->format;'''),('''    return opts && opts->flags.test(drafter_parse_options::NAME_REQUIRED);''','''    return opts != nullptr && opts->flags[drafter_parse_options::NAME_REQUIRED];'''))
ben('o-helper','C26',OP,('bool drafter::is_name_required','''namespace
{
    template <typename Options>
    bool isSet(const Options* opts, std::size_t flag) noexcept
    {
        return opts && opts->flags.test(flag);
    }
}

bool drafter::is_name_required'''),('    return opts && opts->flags.test(drafter_parse_options::SKIP_GEN_BODIES);','    return isSet(opts, drafter_parse_options::SKIP_GEN_BODIES);'),('    return opts && opts->flags.test(drafter_serialize_options::SOURCEMAPS_INCLUDED);','    return isSet(opts, drafter_serialize_options::SOURCEMAPS_INCLUDED);'))
# ---- info elements, registry
ben('i-copy-loop','C14 C16',IE,('''        elements.reserve(other.size());
        std::transform(
            other.begin(), other.end(), std::back_inserter(elements), [](const InfoElements::value_type& el) {
                assert(el.second);
                return std::make_pair(el.first, refract::clone(*el.second));
            });
''','''        elements.reserve(other.size());
        for (const auto& el : other) {
            assert(el.second);
            elements.emplace_back(el.first, refract::clone(*el.second));
        }
'''))
ben('i-copy-clone','C14 C13',IE,('''        elements.reserve(other.size());
        std::transform(
            other.begin(), other.end(), std::back_inserter(elements), [](const InfoElements::value_type& el) {
                assert(el.second);
                return std::make_pair(el.first, refract::clone(*el.second));
            });
''','''        elements.reserve(other.size());
        clone(other);
'''))
ben('i-erase-loop','C16',IE,('''        elements.erase(std::remove_if(elements.begin(),
                           elements.end(),
                           [&key](const InfoElements::value_type& keyValue) { return keyValue.first == key; }),
            elements.end());
''','''        for (auto it = elements.begin(); it != elements.end();) {
            if (it->first == key)
                it = elements.erase(it);
            else
                ++it;
        }
'''))
ben('i-set','C16',IE,('''        auto& valueRef = *value;

        auto it = find(key);
        if (it == end())
            elements.emplace_back(key, std::move(value));
        else
            it->second = std::move(value);

        return valueRef;''','''        IElement& result = *value;

        const auto it = find(key);
        if (it != end()) {
            it->second = std::move(value);
            return result;
        }

        elements.push_back(std::make_pair(key, std::move(value)));
        return result;'''))
ben('i-find-loop','C16 C25 C23',IE,('''    InfoElements::const_iterator InfoElements::find(const std::string& name) const
    {
        return std::find_if(elements.begin(), elements.end(), [&name](const InfoElements::value_type& keyValue) {
            return keyValue.first == name;
        });
    }''','''    InfoElements::const_iterator InfoElements::find(const std::string& name) const
    {
        auto it = begin();
        while (it != end() && it->first != name)
            ++it;
        return it;
    }'''))
ben('i-claim','C16',IE,('''        auto member = find(key);
        if (member != elements.end()) {
            return claim(member);
        }
        return nullptr;''','''        const auto member = find(key);
        return member == end() ? nullptr : claim(member);'''),('''        std::unique_ptr<IElement> result(it->second.release());''','''        auto result = std::move(it->second);'''))
ben('r-for','C20',RG,('''        const std::string ancestor = parent->element();
        const IElement* next = registry.find(ancestor);

        // unknown ancestor, or types inheriting from one another in a cycle
        if (!next || std::find(visited.begin(), visited.end(), ancestor) != visited.end()) {
            return parent;
        }

        visited.push_back(ancestor);
        parent = next;''','''        const std::string ancestor = parent->element();

        // types inheriting from one another in a cycle
        if (std::find(visited.begin(), visited.end(), ancestor) != visited.end())
            break;

        const IElement* const next = registry.find(ancestor);
        if (!next)
            break;

        parent = next;
        visited.push_back(ancestor);'''))
ben('r-count','C20',RG,('std::find(visited.begin(), visited.end(), ancestor) != visited.end()','std::count(visited.begin(), visited.end(), ancestor) > 0'))
ben('r-seen','C20',RG,('''const IElement* refract::FindRootAncestor(''','''namespace
{
    bool contains(const std::vector<std::string>& names, const std::string& name)
    {
        for (const auto& n : names)
            if (n == name)
                return true;
        return false;
    }
}

const IElement* refract::FindRootAncestor('''),('std::find(visited.begin(), visited.end(), ancestor) != visited.end()','contains(visited, ancestor)'))
ben('r-find','C19 C20',RG,('''    auto i = types_.find(name);

    if (i == types_.end()) {
        return nullptr;
    }

    return i->second.get();''','''    const auto i = types_.find(name);
    return i != types_.end() ? i->second.get() : nullptr;'''),('''    auto i = types_.find(name);

    if (i == types_.end()) {
        return false;
    }

    types_.erase(i);
    return true;''','''    return types_.erase(name) > 0;'''))
ben('r-add','C19',RG,('''    auto it = element->meta().find("id");

    if (it == element->meta().end()) {
        throw LogicError("Element has no ID");
    }

    std::string id = getElementId(*element);
''','''    const std::string id = getElementId(*element);
'''),('''    types_[id] = std::move(element);
    return true;''','''    types_.emplace(id, std::move(element));
    return true;'''))
ben('r-add-order','C19',RG,('''        if (const StringElement* s = TypeQueryVisitor::as<const StringElement>(it->second.get())) {
            return s->get();
        }

        throw LogicError("Value of element meta 'id' is not StringElement");''','''        const auto id = TypeQueryVisitor::as<const StringElement>(it->second.get());
        if (!id)
            throw LogicError("Value of element meta 'id' is not StringElement");

        return id->get();'''))
# ---- merging, expandability, lookups
ben('e-infomerge','C18',EX,('''            for (const auto& entry : source) {
                assert(entry.second);
                if (!Skip::operator()(entry.first))
                    target.set(entry.first, entry.second->clone());
            }
            return target;''','''            for (auto it = source.begin(); it != source.end(); ++it) {
                if (Skip::operator()(it->first))
                    continue;
                target.set(it->first, *it->second);
            }
            return target;'''))
ben('e-skip','C18',EX,('''            return (key == "id" || key == "prefix" || key == "namespace");''','''            if (key == "id")
                return true;
            return key == "namespace" || key == "prefix";'''))
ben('e-append-loop','C18',EX,('''            std::transform(merge.get().begin(),
                merge.get().end(),
                std::back_inserter(value.get()),
                [](const std::unique_ptr<IElement>& e) { return clone(*e); });''','''            for (const auto& e : merge.get())
                value.get().push_back(clone(*e));'''))
ben('e-match-helper','C18',EX,('''                                                                          auto optElMemberKey = TypeQueryVisitor::as<
                                                                              const StringElement>(
                                                                              optElMember->get().key());
                                                                          return optElMemberKey
                                                                              && optElMemberKey->get()
                                                                              == mergeKey->get();''','''                                                                          return hasKey(*optElMember, *mergeKey);'''),('''                                        auto valueKey
                                            = TypeQueryVisitor::as<const StringElement>(valueMember->get().key());
                                        return valueKey && mergeKey->get() == valueKey->get();''','''                                        return hasKey(*valueMember, *mergeKey);'''),('''    template <typename T, bool IsContainer = is_iterable<typename T::ValueType>::value>
    struct ValueMerge;''','''    bool hasKey(const MemberElement& member, const StringElement& key)
    {
        auto memberKey = TypeQueryVisitor::as<const StringElement>(member.get().key());
        return memberKey && memberKey->get() == key.get();
    }

    template <typename T, bool IsContainer = is_iterable<typename T::ValueType>::value>
    struct ValueMerge;'''))
ben('e-insert-assign','C18',EX,('''                        value.get().insert(value.get().erase(valueMatch), clone(*m));''','''                        auto next = value.get().erase(valueMatch);
                        value.get().insert(next, clone(*m));'''))
ben('e-enum-order','C18',EX,('''            auto target_enums_it = target.attributes().find("enumerations");
            auto append_enums_it = append.attributes().find("enumerations");
''','''            auto append_enums_it = append.attributes().find("enumerations");
            auto target_enums_it = target.attributes().find("enumerations");
'''),('''                            if (target_enums->get().end() != it) {
                                target_enums->get().erase(it);
                            }
                            target_enums->get().push_back(clone(*append_enum));''','''                            auto copy = clone(*append_enum);
                            if (it != target_enums->get().end())
                                target_enums->get().erase(it);
                            target_enums->get().push_back(std::move(copy));'''))
ben('e-early','C18',EX,('''            if (!merge.empty()) {
                for (const auto& m : merge.get()) {
                    if (value.empty())
                        value.set();
                    auto valueMatch''','''            if (!merge.empty()) {
                if (value.empty() && !merge.get().empty())
                    value.set();
                for (const auto& m : merge.get()) {
                    auto valueMatch'''))
ben('x-check','C21',IX,('''            std::string type;

            if (e) {
                type = e->element();
            }

            return !isReserved(type);''','''            return !isReserved(e ? e->element() : std::string());'''))
ben('x-helper','C21',IX,('''        template <typename T, typename V = typename T::ValueType, bool IsIterable = dsd::is_iterable<V>::value>
        struct IsExpandable {''','''        bool expandable(const IElement& e)
        {
            IsExpandableVisitor v;
            VisitBy(e, v);
            return v.get();
        }

        template <typename T, typename V = typename T::ValueType, bool IsIterable = dsd::is_iterable<V>::value>
        struct IsExpandable {'''),('''                    IsExpandableVisitor v;
                    VisitBy(*key, v);
                    if (v.get()) {
                        return true;
                    }''','''                    if (expandable(*key))
                        return true;'''),('''                    IsExpandableVisitor v;
                    VisitBy(*value, v);
                    if (v.get()) {
                        return true;
                    }''','''                    return expandable(*value);'''))
ben('x-return','C21',IX,('''                if (checkElement(e)) {
                    return true;
                }

                return false;
            }
        };

        template <typename T>
        struct IsExpandable<T, RefElement''','''                return checkElement(e);
            }
        };

        template <typename T>
        struct IsExpandable<T, RefElement'''))
ben('v-lit','C23',VU,('''    if (elementType == TypeQueryVisitor::Null)
        return false;

    if (!e.empty()
        && (elementType == TypeQueryVisitor::String || elementType == TypeQueryVisitor::Number
               || elementType == TypeQueryVisitor::Boolean)) {
        return true;
    }

    return HasTypeAttribute(e, "fixed");''','''    switch (elementType) {
        case TypeQueryVisitor::Null:
            return false;
        case TypeQueryVisitor::String:
        case TypeQueryVisitor::Number:
        case TypeQueryVisitor::Boolean:
            return !e.empty() || HasTypeAttribute(e, "fixed");
        default:
            return HasTypeAttribute(e, "fixed");
    }'''))
ben('v-attr','C23',VH,('''        for (const auto& value : attrs->get()) {
            auto attr = TypeQueryVisitor::as<const StringElement>(value.get());
            if (!attr) {
                continue;
            }
            if (attr->get() == typeAttribute) {
                return true;
            }
        }

        return false;''','''        return std::any_of(attrs->get().begin(), attrs->get().end(), [&typeAttribute](const std::unique_ptr<IElement>& value) {
            auto attr = TypeQueryVisitor::as<const StringElement>(value.get());
            return attr && attr->get() == typeAttribute;
        });'''))
ben('v-find-helper','C23',VH,('''    template <typename T>
    bool IsVariableProperty(''','''    inline const IElement* FindAttribute(const IElement& e, const char* name)
    {
        auto const it = e.attributes().find(name);
        return it == e.attributes().end() ? nullptr : it->second.get();
    }

    template <typename T>
    bool IsVariableProperty('''),('''        auto const dflt = e.attributes().find("default");

        if (dflt == e.attributes().end()) {
            return NULL;
        }

        return TypeQueryVisitor::as<const T>(dflt->second.get());''','''        return TypeQueryVisitor::as<const T>(FindAttribute(e, "default"));'''))
ben('v-getvalue','C23',VH,('''            if (const EnumElement* s = GetSample(element)) {
                return operator()(*s);
            }

            if (const EnumElement* d = GetDefault(element)) {
                return operator()(*d);
            }
''','''            const EnumElement* preferred = GetSample(element);
            if (!preferred)
                preferred = GetDefault(element);

            if (preferred)
                return operator()(*preferred);
'''),('''            if (element.empty() && HasTypeAttribute(element, "nullable")) {
                return nullptr;
            }

            return &element;''','''            return HasTypeAttribute(element, "nullable") ? nullptr : &element;'''))
ben('v-member-loop','C23',VU,('''    auto it = std::find_if(e.get().begin(), e.get().end(), [&name](const std::unique_ptr<IElement>& el) {
        ComparableVisitor cmp(name, ComparableVisitor::key);
        VisitBy(*el, cmp);
        return cmp.get();
    });

    if (it == e.get().end()) {
        return nullptr;
    }

    return static_cast<MemberElement*>(it->get());''','''    for (const auto& el : e.get()) {
        ComparableVisitor cmp(name, ComparableVisitor::key);
        VisitBy(*el, cmp);
        if (cmp.get())
            return static_cast<MemberElement*>(el.get());
    }

    return nullptr;'''))
exec(open(os.path.join(V,'tools/benign2.py')).read()) if os.path.exists(V+'/tools/benign2.py') else None
# ---- JSON / YAML text
JI='packages/drafter/src/utils/so/JsonIo.cc'; YI='packages/drafter/src/utils/so/YamlIo.cc'
ben('so-ternary','C30',JI,('''        int commas = value.data.size() - 1;
        for (const auto& m : value.data) {
            if (!Packed)
                break_indent(out, indent + 1);
            visit<Packed>(m, out, indent + 1);

            if (commas > 0) {
                out << ',';
                --commas;
            }
        }''','''        bool first = true;
        for (const auto& m : value.data) {
            if (!first)
                out << ',';
            first = false;
            if (!Packed)
                break_indent(out, indent + 1);
            visit<Packed>(m, out, indent + 1);
        }'''))
ben('so-escape-helper','C30',JI,('''    template <typename ItI, typename ItO>
    ItO escape_json_string(''','''    template <typename ItO>
    ItO backslash(ItO out, char c)
    {
        *out = '\\\\';
        ++out;
        *out = c;
        ++out;
        return out;
    }

    template <typename ItI, typename ItO>
    ItO escape_json_string('''),('''                    *out = '\\\\';
                    ++out;
                    *out = 'b';
                    ++out;
                    break;''','''                    out = backslash(out, 'b');
                    break;'''),('''                    *out = '\\\\';
                    ++out;
                    *out = 'n';
                    ++out;
                    break;''','''                    out = backslash(out, 'n');
                    break;'''))
ben('so-json-index','C30',JI,('''        for (const auto& m : value.data) {
            if (!Packed)
                break_indent(out, indent + 1);
            visit<Packed>(m, out, indent + 1);
''','''        for (auto it = value.data.begin(); it != value.data.end(); ++it) {
            const auto& m = *it;
            if (!Packed)
                break_indent(out, indent + 1);
            visit<Packed>(m, out, indent + 1);
'''))
ben('so-json-break','C30',JI,('''        out << '\\n';
        for (; indent > 0; --indent)
            out << "  ";
        return out;''','''        out << '\\n';
        for (int i = 0; i < indent; ++i)
            out << "  ";
        return out;'''))
ben('so-yaml-break','C30',YI,('''        for (; indent > 0; --indent)
            out << "  ";
        return out;''','''        while (indent-- > 0)
            out << "  ";
        return out;'''))
ben('so-yaml-alpha','C30',YI,('''            if (c < 'A' || c > 'z' || (c > 'Z' && c < 'a') || c == '-')
                return false;''','''            if (!((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')))
                return false;'''))
ben('so-yaml-allof','C30',YI,('''        for (char c : str)
            if (c < 'A' || c > 'z' || (c > 'Z' && c < 'a') || c == '-')
                return false;
        return true;''','''        return std::all_of(str.begin(), str.end(), [](char c) { return ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z'); });'''))
ben('so-yaml-plainfn','C30',YI,('''            // for clearer, unescaped reading
            if (!m.first.empty()''','''            // for clearer, unescaped reading
            const bool plain = !m.first.empty()'''),('''!is_reserved_word(m.first))
                out << m.first;''','''!is_reserved_word(m.first);
            if (plain)
                out << m.first;'''))
ben('so-yaml-sep','C30',YI,('''    struct yaml_printer final {''','''    void separate(std::ostream& out, int indent)
    {
        if (indent > 0)
            out << ' ';
    }

    struct yaml_printer final {'''),('''            if (indent > 0)
                out << ' ';

            out << "null";''','''            separate(out, indent);
            out << "null";'''),('''            if (indent > 0)
                out << ' ';

            serialize_yaml(out, value.data);''','''            separate(out, indent);
            serialize_yaml(out, value.data);'''))
ben('so-yaml-printable','C30',YI,('''                    if (is_yaml_printable(c)) {
                        out = encode(c, out);
                    } else {
                        out = serialize_escaped(c, out);
                    }''','''                    out = is_yaml_printable(c) ? encode(c, out) : serialize_escaped(c, out);'''))
ben('so-yaml-newline','C30',YI,('''        int newlines = value.data.size() - 1;
        for (const auto& m : value.data) {
            do_indent(out, indent);

            out << '-';

            visit(m, out, indent + 1);

            if (newlines > 0) {
                out << '\\n';
                --newlines;
            }
        }''','''        bool first = true;
        for (const auto& m : value.data) {
            if (!first)
                out << '\\n';
            first = false;

            do_indent(out, indent);

            out << '-';

            visit(m, out, indent + 1);
        }'''))
ben('so-json-size','C30',JI,('''        if (!(Packed || value.data.empty()))
            break_indent(out, indent);
        out << ']';''','''        if (!Packed && value.data.size() > 0)
            break_indent(out, indent);
        out << ']';'''))
# ---- size
ESZ=R+'ElementSize.cc'
ben('sz-swap','C29',ESZ,('return wrapNullable(keySize * sizeOf(*e.get().value(), inheritsFixed), e);','''const auto valueSize = sizeOf(*e.get().value(), inheritsFixed);
        return wrapNullable(keySize * valueSize, e);'''))

ben('sz-loop','C29',ESZ,('''        using ElementPtr = decltype(*begin);
        return std::accumulate(begin, end, cardinal{ 1 }, [inheritsFixed](cardinal a, const ElementPtr& b) { //
            return a * sizeOf(*b, inheritsFixed);
        });''','''        cardinal result{ 1 };
        for (; begin != end; ++begin)
            result = result * sizeOf(**begin, inheritsFixed);
        return result;'''))
ben('sz-scalar','C29',ESZ,('''    struct SizeOfVisitor {''','''    template <typename ElementT>
    cardinal sizeOfScalar(const ElementT& e, bool inheritsFixed, cardinal base)
    {
        if (hasFixedTypeAttr(e) || (inheritsFixed && definesValue(e)))
            return wrapNullable(cardinal{ 1 }, e);
        return wrapNullable(base, e);
    }

    struct SizeOfVisitor {'''),*[('''{
    auto baseSize = cardinal::open();
    if ((definesValue(e) && inheritsFixed) || hasFixedTypeAttr(e))
        baseSize = cardinal{ 1 };
    return wrapNullable(baseSize, e);
}''','''{
    return sizeOfScalar(e, inheritsFixed, cardinal::open());
}''')]*2)
ben('sz-early','C29',ESZ,('''    auto baseSize = cardinal::open();
    const bool isFixed = inheritsFixed || hasFixedTypeAttr(e);
    if (isFixed || hasFixedTypeTypeAttr(e)) {
        if (e.empty())
            baseSize = cardinal{ 1 };
        else
            baseSize = sizeOfMult(e.get().begin(), e.get().end(), isFixed);
    }
    return wrapNullable(baseSize, e);''','''    const bool isFixed = inheritsFixed || hasFixedTypeAttr(e);
    if (!isFixed && !hasFixedTypeTypeAttr(e))
        return wrapNullable(cardinal::open(), e);
    const auto baseSize = e.empty() ? cardinal{ 1 } : sizeOfMult(e.get().begin(), e.get().end(), isFixed);
    return wrapNullable(baseSize, e);'''))

def run(i):
    props,f,subs=B[i]; w=tempfile.mkdtemp(prefix='ben_',dir='/tmp')
    try:
        subprocess.run(['cp','-a','/repo',w+'/repo'],check=True); subprocess.run(['cp','-a','/verif',w+'/verif'],check=True); shutil.rmtree(w+'/verif/.git')
        subprocess.run(['git','-C',w+'/repo','checkout','-q','--','.'],check=True)
        p=w+'/repo/'+f; s=open(p).read()
        for a,b in subs:
            if s.count(a)<1: return f"{i}: text not found: {a[:60]!r}"
            s=s.replace(a,b,1)
        open(p,'w').write(s)
        sh=f"mount --bind {w}/repo /repo; mount --bind {w}/verif /verif; cd /verif; bash /opt/vp/build.sh >{w}/b.log 2>&1; echo build $?; bash /opt/vp/test.sh {w}/t.json >/dev/null 2>&1\n"
        for q in props: sh+=f"timeout 900 python3 check.py {q} quick > {w}/{q}.log 2>&1; echo {q} $?\n"
        env=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick')
        r=subprocess.run(['unshare','-Urm','bash','-c',sh],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env)
        out=[]
        if 'build 0' not in r.stdout: out.append('BUILD FAILED '+open(w+'/b.log').read()[-400:])
        try:
            b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(w+'/t.json'))
            n=lambda d: set(x if isinstance(x,str) else x.get('name') for k in('passed','stable','tests') if isinstance(d.get(k),list) for x in d[k])
            k=len(n(b)-n(t)); 
            if k: out.append(f"lost {k} tests")
        except Exception as ex: out.append(f"tests: {ex}")
        for q in props:
            rc=re.search(rf'^{q} (\d+)$',r.stdout,re.M); rc=rc.group(1) if rc else '?'
            lg=open(f"{w}/{q}.log").read() if os.path.exists(f"{w}/{q}.log") else ''
            st=[l for l in lg.split('\n') if 'proof' in l or 'VIOLATION' in l or 'undecided' in l or 'failed' in l][:3]
            out.append(f"{q} rc={rc} {' | '.join(x[:170] for x in st)}")
        return f"{i}: "+'; '.join(out)
    finally: shutil.rmtree(w)
# ---- reports
RPC='packages/drafter/src/reporting.cc'
ben('rp-rangefor','C33',RPC,('''            for (mdp::CharactersRangeSet::const_iterator it = annotation.location.begin();
                 it != annotation.location.end();
                 ++it) {
''','''            bool first = true;
            for (const auto& range : annotation.location) {
'''),('GetLineFromMap(linesEndIndex, *it)','GetLineFromMap(linesEndIndex, range)'),('''                    std::cerr << ((it == annotation.location.begin()) ? " :" : ";");
                    std::cerr << it->location << ":" << it->length;
                }''','''                    std::cerr << (first ? " :" : ";") << range.location << ":" << range.length;
                }
                first = false;'''))
ben('rp-helper','C33',RPC,('''    void PrintAnnotation(const std::string& prefix,''','''    void PrintPosition(std::ostream& out, const AnnotationPosition& position)
    {
        out << "; line " << position.fromLine << ", column " << position.fromColumn;
        out << " - line " << position.toLine << ", column " << position.toColumn;
    }

    void PrintAnnotation(const std::string& prefix,'''),('''                    std::cerr << "; line " << annotationPosition.fromLine << ", column "
                              << annotationPosition.fromColumn;
                    std::cerr << " - line " << annotationPosition.toLine << ", column " << annotationPosition.toColumn;''','''                    PrintPosition(std::cerr, annotationPosition);'''),('''                        output << "; line " << annotationPosition.fromLine << ", column "
                               << annotationPosition.fromColumn;
                        output << " - line " << annotationPosition.toLine << ", column " << annotationPosition.toColumn;''','''                        PrintPosition(output, annotationPosition);'''))
ben('rp-loop','C33',RPC,('''    std::transform(filter.elements().begin(),
        filter.elements().end(),
        std::ostream_iterator<std::string>(std::cerr, "\\n"),
        AnnotationToString(source, useLineNumbers));''','''    AnnotationToString toString(source, useLineNumbers);
    for (const auto* annotation : filter.elements())
        std::cerr << toString(annotation) << "\\n";'''))
ben('rp-early','C33',RPC,('''            if (map && map->get().size() == 2) {

                auto loc = TypeQueryVisitor::as<const NumberElement>(map->get().begin()[0].get());
                auto len = TypeQueryVisitor::as<const NumberElement>(map->get().begin()[1].get());
                if (loc && len) {

                    if (useLineNumbers) {''','''            if (!map || map->get().size() != 2)
                return output.str();
            {
                auto len = TypeQueryVisitor::as<const NumberElement>(map->get().begin()[1].get());
                auto loc = TypeQueryVisitor::as<const NumberElement>(map->get().begin()[0].get());
                if (!loc || !len)
                    return std::string{};
                {

                    if (useLineNumbers) {'''))
ben('rp-newline','C33',RPC,('''        std::cerr << std::endl;
    }

    struct''','''        std::cerr << '\\n' << std::flush;
    }

    struct'''))
ben('rp-first','C33',RPC,('''                        for (const auto& array : sourceMap->get()) {
                            if (!useLineNumbers) {
                                const char* prefix = array == (*sourceMap->get().begin()) ? " :" : ";";
                                output << prefix;
                            }
                            output << location(array.get());
                        }''','''                        const char* prefix = " :";
                        for (const auto& array : sourceMap->get()) {
                            if (!useLineNumbers)
                                output << prefix;
                            prefix = ";";
                            output << location(array.get());
                        }'''))
ben('rp-split','C33',RPC,('''            if (auto classes = FindCollectionMemberValue<ArrayElement>(annotation->meta(), "classes")) {
                if (classes->get().size() == 1) {
                    if (auto type = TypeQueryVisitor::as<const StringElement>(classes->get().begin()[0].get())) {
                        output << type->get() << ": ";
                    }
                }
            };
''','''            output << severity(annotation);
'''),('''        const std::string operator()(const IElement* annotation)''','''        std::string severity(const IElement* annotation) const
        {
            const auto classes = FindCollectionMemberValue<ArrayElement>(annotation->meta(), "classes");
            if (!classes || classes->get().size() != 1)
                return "";
            const auto type = TypeQueryVisitor::as<const StringElement>(classes->get().begin()[0].get());
            return type ? type->get().get() + ": " : "";
        }

        const std::string operator()(const IElement* annotation)'''))
ben('rp-warn-index','C33',RPC,('''    for (snowcrash::Warnings::const_iterator it = report.warnings.begin(); it != report.warnings.end(); ++it) {
        PrintAnnotation("warning:", *it, source, isUseLineNumbers);
    }''','''    for (size_t i = 0; i < report.warnings.size(); ++i)
        PrintAnnotation("warning:", report.warnings[i], source, isUseLineNumbers);'''))
NUC='packages/drafter/src/refract/dsd/Number.cc'
ben('rp-number','C33',NUC,('''    char* end = nullptr;
    const std::int64_t result = std::strtoll(value_.c_str(), &end, 10);
    if (*end != '\\0')''','''    const char* const begin = value_.c_str();
    char* end = nullptr;
    const long long result = std::strtoll(begin, &end, 10);
    if (end != begin + value_.size())'''))
if __name__=='__main__':
    a=sys.argv[1:]; j=4
    if a[:1]==['-j']: j=int(a[1]); a=a[2:]
    with ThreadPoolExecutor(j) as ex:
        for x in ex.map(run,a or list(B)): print(x,flush=True)
