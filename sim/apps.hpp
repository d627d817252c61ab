// The programs that run inside simulated processes. Their code (apps.cpp) uses the real library; this header does not.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sim
{
enum ekind { E_OPTION, E_FLAG, E_POS, E_SECTION, E_SUBSECTION, E_LINE, E_ITEM };
enum etype { T_INT, T_U8, T_I64, T_DOUBLE, T_BOOL, T_CHAR, T_STRING, T_ENUM, T_PATH, T_USER, T_VINT, T_VSTR, T_VENUM, N_TYPES };
enum vkind { V_NONE, V_RANGE, V_LIST, V_REGEX, V_CHAIN, V_USER, V_INFILE, V_OUTFILE, V_INDIR, V_OUTDIR };
enum design { D_NONE, D_ID_CHAR, D_ID_SHORT, D_ID_DASH, D_NO_ID, D_FLAG_TRUE, D_REQUIRED_DEFAULT, D_POS_ADVANCED, D_AFTER_LIST, D_AFTER_PARSE, D_ASK_UNKNOWN, D_ASK_EARLY, D_TWICE, N_DESIGN };

struct elem
{
    int kind{E_OPTION};
    int type{T_INT};
    char sid{};
    std::string lid, desc, defmsg;
    bool adv{}, hid{}, req{};
    int val{V_NONE};
    int fail_at{-1}; // V_USER: the n-th call throws
    int fail_how{};  // 0 std::runtime_error, 1 validation_error, 2 int, 3 std::bad_alloc
};

struct prog
{
    std::string name{"app"}, version{"1.0.0"}, url;
    std::string author, citation, short_copyright, long_copyright, date, email, short_description;
    std::vector<std::string> description, examples, synopsis;
    std::vector<elem> elems;
    std::vector<std::string> subcommands;
    std::vector<elem> sub_elems;
    std::vector<std::string> argv; // without the program name
    bool update_on{};
    int design{D_NONE};            // a mistake of the program's author
    bool locale{};                 // the program sets a global C++ locale with 1.234,5 numbers
};

struct file_check
{
    enum kind_t { in_file, out_file, in_dir, out_dir } kind{in_file};
    bool create_new{true};
    std::vector<std::string> exts;
    std::string path;
    bool via_parser{};
    bool as_list{};                 // a list of paths: path and path2
    std::string path2;
    std::vector<std::string> writes; // on success: create/overwrite these files (relative to path for out_dir)
    int64_t pause{};                // simulated time between validation and writing
    bool check_results{};           // afterwards report whether the written files are still there
    int64_t hold{};                 // ... after this time
};

struct body_opts
{
    std::map<std::string, std::string> env;
    int64_t work{};        // simulated time between parse and destruction
    unsigned moves{};      // move the parser: 1 after its construction, 2 before parse, 4 after parse; 8: by assignment
    bool in_thread{};      // everything happens in a thread of its own
    bool state{};          // reports "state": what of the process changed between construction and destruction of the parser
    uint64_t alloc_at{}, alloc_every{}; // allocation that fails; reports "allocs" (number, failed) at exit
    bool count_allocs{};
    bool read_rest{};      // afterwards the program reads what is left of std::cin; reports "rest"; mark 6 before
    bool locale{};         // a global C++ locale with 1.234,5 numbers
    bool c_locale{};       // setlocale(LC_ALL, "C.UTF-8")
    int fill{-1};          // what uninitialised heap and stack memory contains
    int umask{-1};
    bool no_sync{};        // std::ios::sync_with_stdio(false)
    int out_buffer{-1};    // setvbuf: 0 unbuffered, 1 line buffered, 2 a small buffer, 3 a large one
    bool out_flags{};      // std::cout and std::cerr have flags, precision and fill character of the program's choice
    std::vector<prog> earlier; // parsers that were used before
    int exit_how{};        // 0 return from main, 1 std::exit while the parser is alive, 2 the parser is a static object
};

bool release_build();
int sharg_ver(int i);
std::string copyright_text();

// one program run: reports "outcome"; marks 1 construct, 2 parse begins, 3 parse ended, 4 destruct begins, 5 destructed
int body_app(prog const & p, body_opts const & o);
// several programs, in threads or in sequence; reports "outcome<i>"
// moves[i]: as above; handover: each step of each parser in another thread
// nested: the callbacks (user validators) of each parser run the next one, at call nest_at[i]
struct many_opts { bool threads{}, handover{}; std::vector<unsigned> moves; bool nested{}; std::vector<int> nest_at; };
int body_many(std::vector<prog> const & p, many_opts const & m, body_opts const & o);
// allocation failures: reports "ref", then for each fault position "f<n>"
struct alloc_fault { uint64_t at, every; };
int body_alloc(prog const & p, std::vector<alloc_fault> const & faults, body_opts const & o);
// counts allocations of a clean run
int body_files(std::vector<file_check> const & c, body_opts const & o);
// every list in a thread of its own; reports check<10 * thread + i>
int body_files_threads(std::vector<std::vector<file_check>> const & c, body_opts const & o);
// guard: safe_filesystem_entry
int body_guard(std::string const & path, int how, body_opts const & o);
} // namespace sim
