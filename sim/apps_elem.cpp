#include "apps_elem.hpp"

#include <ranges>

namespace sim
{
#if PART == 0
void add_elem_0(sharg::parser & p, elem const & e, cell & c)
{
    switch (e.type)
    {
    case T_INT:
        if (e.val == V_RANGE)
            add(p, e, c.i, sharg::arithmetic_range_validator{-10, 100});
        else if (e.val == V_LIST)
            add(p, e, c.i, sharg::value_list_validator{std::vector<int>{1, 2, 7, 42, 1000000}});
        else if (e.val == V_USER)
            add(p, e, c.i, user_validator{e.fail_at, e.fail_how});
        else
            add_default(p, e, c.i);
        return;
    case T_VINT:
        if (e.val == V_RANGE)
            add(p, e, c.vi, sharg::arithmetic_range_validator{-10, 100});
        else if (e.val == V_USER)
            add(p, e, c.vi, user_validator{e.fail_at, e.fail_how});
        else
            add_default(p, e, c.vi);
        return;
    default: return;
    }
}
#endif
#if PART == 1
void add_elem_1(sharg::parser & p, elem const & e, cell & c)
{
    switch (e.type)
    {
    case T_DOUBLE:
        if (e.val == V_RANGE)
            add(p, e, c.d, sharg::arithmetic_range_validator{-1.5, 2.5});
        else
            add_default(p, e, c.d);
        return;
    case T_STRING:
        if (e.val == V_LIST)
            add(p, e, c.s, sharg::value_list_validator{std::vector<std::string>{"dflt", "alpha", "beta"}});
        else if (e.val == V_REGEX)
            add(p, e, c.s, sharg::regex_validator{"[a-z]+"});
        else if (e.val == V_CHAIN)
            add(p, e, c.s, sharg::regex_validator{"[a-z]+"} | sharg::value_list_validator{std::vector<std::string>{"dflt", "alpha", "beta", "X1"}});
        else
            add_default(p, e, c.s);
        return;
    case T_VSTR:
        if (e.val == V_REGEX)
            add(p, e, c.vs, sharg::regex_validator{"[a-z]+"});
        else
            add_default(p, e, c.vs);
        return;
    default: return;
    }
}
#endif
#if PART == 2
void add_elem_2(sharg::parser & p, elem const & e, cell & c)
{
    switch (e.type)
    {
    case T_U8: add_default(p, e, c.u8); return;
    case T_BOOL: add_default(p, e, c.b); return;
    case T_CHAR: add_default(p, e, c.c); return;
    case T_PATH:
        if (e.val == V_INFILE)
            add(p, e, c.p, sharg::input_file_validator{{"txt", "fa"}});
        else if (e.val == V_OUTFILE)
            add(p, e, c.p, sharg::output_file_validator{{"txt", "fa"}});
        else if (e.val == V_INDIR)
            add(p, e, c.p, sharg::input_directory_validator{});
        else if (e.val == V_OUTDIR)
            add(p, e, c.p, sharg::output_directory_validator{});
        else
            add_default(p, e, c.p);
        return;
    default: return;
    }
}
#endif
#if PART == 3
void add_elem_3(sharg::parser & p, elem const & e, cell & c)
{
    switch (e.type)
    {
    case T_I64: add_default(p, e, c.i64); return;
    case T_ENUM:
        if (e.val == V_LIST)
            add(p, e, c.e, sharg::value_list_validator{(sharg::enumeration_names<colour> | std::views::values)});
        else
            add_default(p, e, c.e);
        return;
    case T_USER:
        if (e.val == V_LIST)
            add(p, e, c.am, sharg::value_list_validator{std::vector<appns::amount>{{0.5, 'k'}, {2, 'm'}, {1234.5, 'k'}}});
        else
            add_default(p, e, c.am);
        return;
    case T_VENUM: add_default(p, e, c.ve); return;
    default: return;
    }
}
#endif
} // namespace sim
