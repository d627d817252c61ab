// The elements of generated parsers: the types of values and the validators, shared by apps.cpp and apps_elem.cpp
#pragma once
#include "apps.hpp"
#include "proto.hpp"

#include <sharg/all.hpp>

#include <functional>
#include <memory>
#include <new>

namespace appns
{
enum class colour { red, green, blue };
inline std::unordered_map<std::string_view, colour> enumeration_names(colour)
{
    return {{"red", colour::red}, {"green", colour::green}, {"blue", colour::blue}};
}

// a type of the program with operators of its own
struct amount
{
    double value;
    char unit;
    int count{1};
    // leave their marks on the stream
    friend std::istream & operator>>(std::istream & s, amount & a)
    {
        s >> a.value >> a.unit;
        a.count = 1;
        if (char c; s && s.peek() == '*')
            s >> c >> a.count;
        return s >> std::hex >> std::boolalpha >> std::noskipws;
    }
    friend std::ostream & operator<<(std::ostream & s, amount const & a)
    {
        s << a.value << a.unit;
        if (a.count != 1)
            s << '*' << a.count;
        return s << std::setprecision(3) << std::hex << std::showpos << std::setfill('_');
    }
    friend bool operator==(amount const &, amount const &) = default;
};
} // namespace appns

namespace sim
{
using appns::colour;

void callback(); // what a callback of the program does besides

struct user_validator
{
    using option_value_type = int;
    int fail_at{-1}, how{0};
    std::shared_ptr<int> calls{std::make_shared<int>(0)};
    template <typename T>
    void operator()(T const &) const
    {
        callback();
        if (++*calls - 1 == fail_at)
        {
            switch (how)
            {
            case 0: throw std::runtime_error{"callback failed"};
            case 1: throw sharg::validation_error{"callback rejects"};
            case 2: throw 42;
            default: throw std::bad_alloc{};
            }
        }
    }
    std::string get_help_page_message() const
    {
        callback();
        return "User rule.";
    }
};

struct cell
{
    int i{7};
    uint8_t u8{8};
    int64_t i64{9000000};
    double d{0.5};
    bool b{false};
    char c{'c'};
    std::string s{"dflt"};
    colour e{colour::green};
    std::filesystem::path p{"some/path"};
    appns::amount am{1234.5, 'k'};
    std::vector<int> vi{};
    std::vector<std::string> vs{};
    std::vector<colour> ve{};
    bool flag{false};
};

template <typename V>
sharg::config<V> cfg(elem const & e, V v)
{
    bool const o = e.kind != E_POS;
    return sharg::config<V>{.short_id = o ? e.sid : '\0',
                            .long_id = o ? e.lid : std::string{},
                            .description = e.desc,
                            .default_message = o ? e.defmsg : std::string{},
                            .advanced = o && e.adv,
                            .hidden = o && e.hid,
                            .required = o && e.req,
                            .validator = std::move(v)};
}

template <typename T, typename V>
void add(sharg::parser & p, elem const & e, T & value, V v)
{
    if (e.kind == E_POS)
        p.add_positional_option(value, cfg(e, std::move(v)));
    else
        p.add_option(value, cfg(e, std::move(v)));
}

template <typename T>
void add_default(sharg::parser & p, elem const & e, T & value)
{
    add(p, e, value, sharg::detail::default_validator{});
}

// the types are spread over several translation units: they compile for long
#define PARTS 4
void add_elem_0(sharg::parser &, elem const &, cell &);
void add_elem_1(sharg::parser &, elem const &, cell &);
void add_elem_2(sharg::parser &, elem const &, cell &);
void add_elem_3(sharg::parser &, elem const &, cell &);
} // namespace sim
