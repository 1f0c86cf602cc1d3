// P26: SQLite columns, connections, transactions and schema queries against the plain SQLite C interface.
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <set>

#include "schema.h"
#include "tracked.h"
#include "zserio/SerializeUtil.h"
#include "zserio/SqliteConnection.h"
#include "zserio/SqliteException.h"
#include "zserio/SqliteFinalizer.h"
#include "zserio/SqliteUtil.h"
#include "zserio/ValidationSqliteUtil.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"

using namespace zserio;
using StdA = std::allocator<uint8_t>;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;
using PpmrA = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;

namespace
{
// ------------------------------------------------------------------------------------------------ SQLite helpers
// allocations of SQLite itself, with a countdown to an injected failure
sqlite3_mem_methods g_orig;
long g_failAt = -1; // fail the n-th allocation from now on (-1 never)
bool g_failed = false;
bool failNow()
{
    if (g_failAt < 0) return false;
    if (g_failAt-- > 0) return false;
    g_failed = true;
    return true;
}
void* mMalloc(int n) { return failNow() ? nullptr : g_orig.xMalloc(n); }
void* mRealloc(void* p, int n) { return failNow() ? nullptr : g_orig.xRealloc(p, n); }
void init()
{
    static bool done = false;
    if (done) return;
    done = true;
    (void)sqlite3_config(SQLITE_CONFIG_LOOKASIDE, 0, 0);
    if (sqlite3_config(SQLITE_CONFIG_GETMALLOC, &g_orig) == SQLITE_OK)
    {
        sqlite3_mem_methods m = g_orig;
        m.xMalloc = mMalloc;
        m.xRealloc = mRealloc;
        (void)sqlite3_config(SQLITE_CONFIG_MALLOC, &m);
    }
}
sqlite3* openDb()
{
    init();
    sqlite3* c = nullptr;
    if (sqlite3_open_v2(":memory:", &c, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE, nullptr) != SQLITE_OK)
        throw std::runtime_error("harness: cannot open a database in memory");
    return c;
}
struct Db
{
    sqlite3* c = openDb();
    Db() = default;
    Db(const Db&) = delete;
    Db& operator=(const Db&) = delete;
    ~Db() { sqlite3_close_v2(c); }
};
using Stmt = std::unique_ptr<sqlite3_stmt, int (*)(sqlite3_stmt*)>;
Stmt prep(sqlite3* c, const std::string& sql)
{
    sqlite3_stmt* s = nullptr;
    if (sqlite3_prepare_v2(c, sql.c_str(), -1, &s, nullptr) != SQLITE_OK)
        throw std::runtime_error("harness: " + sql + ": " + sqlite3_errmsg(c));
    return Stmt(s, sqlite3_finalize);
}
void exec(sqlite3* c, const std::string& sql)
{
    if (sqlite3_exec(c, sql.c_str(), nullptr, nullptr, nullptr) != SQLITE_OK)
        throw std::runtime_error("harness: " + sql + ": " + sqlite3_errmsg(c));
}
// result code of one statement run through the plain interface
int rawRun(sqlite3* c, const std::string& sql)
{
    sqlite3_stmt* s = nullptr;
    int rc = sqlite3_prepare_v2(c, sql.c_str(), static_cast<int>(sql.size()), &s, nullptr);
    if (rc != SQLITE_OK) return rc;
    rc = sqlite3_step(s);
    sqlite3_finalize(s);
    return rc;
}
std::string dumpQuery(sqlite3* c, const std::string& sql)
{
    std::string out;
    sqlite3_stmt* s = nullptr;
    if (sqlite3_prepare_v2(c, sql.c_str(), -1, &s, nullptr) != SQLITE_OK) return "<" + std::string(sqlite3_errmsg(c)) + ">";
    while (sqlite3_step(s) == SQLITE_ROW)
    {
        for (int i = 0; i < sqlite3_column_count(s); ++i)
        {
            const unsigned char* t = sqlite3_column_text(s, i);
            out += t == nullptr ? "NULL" : reinterpret_cast<const char*>(t);
            out += '|';
        }
        out += '\n';
    }
    sqlite3_finalize(s);
    return out;
}

// ------------------------------------------------------------------------------------------------ columns
template <class T, class A, class = void>
struct Bindable : std::false_type
{};
template <class T, class A>
struct Bindable<T, A, std::void_t<decltype(zserio::detail::bindColumn(std::declval<sqlite3_stmt&>(), 1, std::declval<T>(), BitSize(), std::declval<const A&>()))>> : std::true_type
{};

template <class T>
struct Dyn : std::false_type
{};
template <class V>
struct Dyn<zserio::detail::DynIntWrapper<V>> : std::true_type
{};

struct Cell
{
    virtual ~Cell() = default;
    virtual const char* typeName() const = 0;
    virtual int type() const = 0;
    virtual void bind(pbt::Gen& g, sqlite3_stmt& s, int i) = 0;
    virtual void read(pbt::Gen& g, sqlite3_stmt& s, int i) = 0;
    virtual void next(pbt::Gen& g) = 0; // another value
    virtual std::string descr() const = 0;
    virtual bool heavy() const { return false; }
};
template <class A, class T>
struct ValCell : Cell
{
    A alloc;
    T value{};
    explicit ValCell(const A& a) : alloc(a) {}
    const char* typeName() const override { return zserio::detail::ColumnTraits<T>::TYPE_NAME.data(); }
    int type() const override { return zserio::detail::ColumnTraits<T>::TYPE; }
    void next(pbt::Gen& g) override { value = make(g); }
    static T make(pbt::Gen& g)
    {
        if constexpr (std::is_same_v<T, sch::Color>) return g.pick({sch::Color::RED, sch::Color::GREEN, sch::Color::BLUE, sch::Color::MAX});
        else if constexpr (std::is_same_v<T, sch::Level>) return g.pick({sch::Level::LOW, sch::Level::MINUS, sch::Level::ZERO, sch::Level::SEVEN, sch::Level::HIGH});
        else if constexpr (std::is_same_v<T, sch::Perm>) return T(static_cast<typename T::ZserioType::ValueType>(g.ubits(sizeof(typename T::ZserioType::ValueType) * 8)));
        else if constexpr (std::is_enum_v<T>) return EnumTraits<T>::values[g.below(EnumTraits<T>::values.size())];
        else if constexpr (std::is_same_v<typename T::ValueType, float>)
        {
            float f = g.anyFloat();
            return T(std::isnan(f) ? -1.5F : f); // NaN is NULL for SQLite
        }
        else if constexpr (std::is_same_v<typename T::ValueType, double>)
        {
            double f = g.anyDouble();
            return T(std::isnan(f) ? 2.5 : f);
        }
        else return T(g.integral<typename T::ValueType>());
    }
    std::string descr() const override
    {
        if constexpr (std::is_enum_v<T>) return "enum " + std::to_string(static_cast<long long>(value));
        else if constexpr (is_bitmask_v<T>) return "bitmask " + std::to_string(value.getValue());
        else return pbt::show(static_cast<typename T::ValueType>(value));
    }
    bool heavy() const override
    {
        if constexpr (std::is_enum_v<T> || is_bitmask_v<T>) return true;
        else return static_cast<typename T::ValueType>(value) != typename T::ValueType(0);
    }
    void bind([[maybe_unused]] pbt::Gen& g, sqlite3_stmt& s, int i) override
    {
        CHECK_EQ(zserio::detail::prepareColumn(value), BitSize(0));
        if constexpr (Dyn<T>::value)
        {
            if constexpr (Bindable<View<T>, A>::value)
            {
                if (g.flip())
                { // as the view of a row gives it
                    CHECK_EQM(zserio::detail::bindColumn(s, i, View<T>(value, 8), BitSize(8), alloc), SQLITE_OK, "bind of a view of " << descr());
                    return;
                }
            }
        }
        if constexpr (Bindable<T, A>::value) CHECK_EQM(zserio::detail::bindColumn(s, i, value, BitSize(0), alloc), SQLITE_OK, "bind of " << descr());
        else CHECKM(false, "a value of type " << typeid(T).name() << " cannot be bound to a column");
    }
    void read(pbt::Gen& g, sqlite3_stmt& s, int i) override
    {
        BasicOptional<A, T> c(alloc);
        if (g.flip()) c = make(g);
        zserio::detail::readColumn(c, s, i);
        CHECKM(c.has_value(), descr() << " reads back as absent");
        const T got = *c;
        CHECKM(got == value, descr() << " reads back as a different value");
    }
};
template <class A>
struct TextCell : Cell
{
    using S = BasicString<RebindAlloc<A, char>>;
    A alloc;
    std::string value;
    explicit TextCell(const A& a) : alloc(a) {}
    const char* typeName() const override { return zserio::detail::ColumnTraits<S>::TYPE_NAME.data(); }
    int type() const override { return zserio::detail::ColumnTraits<S>::TYPE; }
    static std::string make(pbt::Gen& g)
    {
        if (g.chance(1, 10)) return std::string(g.below(5000), 'x');
        return g.utf8(g.chance(1, 4) ? 200 : 12, true);
    }
    void next(pbt::Gen& g) override { value = make(g); }
    std::string descr() const override { return pbt::show(value); }
    bool heavy() const override { return value.size() > 1; }
    void bind(pbt::Gen& g, sqlite3_stmt& s, int i) override
    {
        if (value.empty() || g.flip())
        { // the string of a row
            S str(value.data(), value.size(), RebindAlloc<A, char>(alloc));
            CHECK_EQ(zserio::detail::prepareColumn(str), BitSize(0));
            CHECK_EQM(zserio::detail::bindColumn(s, i, str, BitSize(0), alloc), SQLITE_OK, "bind of a text");
            std::fill(str.begin(), str.end(), '#');
        }
        else
        { // a part of a bigger text
            std::string all = value + "tail";
            CHECK_EQM(zserio::detail::bindColumn(s, i, std::string_view(all).substr(0, value.size()), BitSize(0), alloc), SQLITE_OK, "bind of a text");
            std::fill(all.begin(), all.end(), '#');
        }
    }
    void read(pbt::Gen& g, sqlite3_stmt& s, int i) override
    {
        BasicOptional<A, S> c(alloc);
        if (g.flip()) c.emplace(std::string_view("previous"));
        zserio::detail::readColumn(c, s, i);
        CHECKM(c.has_value(), "text reads back as absent");
        CHECK_EQM(std::string(c->data(), c->size()), value, "text reads back");
    }
};
template <class A, class T, class... P>
struct BlobCell : Cell
{
    A alloc;
    std::optional<T> value;
    std::tuple<P...> params;
    std::function<T(pbt::Gen&, const A&, std::tuple<P...>&)> maker;
    BlobCell(const A& a, std::function<T(pbt::Gen&, const A&, std::tuple<P...>&)> m) : alloc(a), maker(std::move(m)) {}
    const char* typeName() const override { return zserio::detail::ColumnTraits<T>::TYPE_NAME.data(); }
    int type() const override { return zserio::detail::ColumnTraits<T>::TYPE; }
    void next(pbt::Gen& g) override { value.reset(); value.emplace(maker(g, alloc, params)); }
    std::string descr() const override { return "blob of " + std::to_string(bytes().size()) + " bytes"; }
    bool heavy() const override { return bytes().size() > 2; }
    std::vector<uint8_t> bytes() const
    {
        T copy(*value, alloc);
        auto b = std::apply([&](auto... p) { return zserio::serializeToBytes(copy, alloc, p...); }, params);
        return {b.begin(), b.end()};
    }
    void bind(pbt::Gen&, sqlite3_stmt& s, int i) override
    {
        const auto before = bytes();
        View<T> view = std::apply([&](auto... p) { return View<T>(*value, p...); }, params);
        const BitSize n = zserio::detail::prepareColumn(view);
        CHECK_EQM((n + 7) / 8, static_cast<BitSize>(before.size()), "prepared size");
        CHECK_EQM(zserio::detail::bindColumn(s, i, view, n, alloc), SQLITE_OK, "bind of a blob");
    }
    void read(pbt::Gen&, sqlite3_stmt& s, int i) override
    {
        const auto exp = bytes();
        const auto* p = static_cast<const uint8_t*>(sqlite3_column_blob(&s, i));
        const std::vector<uint8_t> stored(p, p + sqlite3_column_bytes(&s, i));
        CHECKM(stored == exp, "stored blob has " << stored.size() << " bytes, serialized object " << exp.size() << ", or the bytes differ");
        BasicOptional<A, T> c(alloc);
        std::apply([&](auto... q) { zserio::detail::readColumn(c, s, i, q...); }, params);
        CHECKM(c.has_value(), "blob reads back as absent");
        CHECKM(*c == *value, "blob reads back as a different object");
    }
};

template <class A>
std::unique_ptr<Cell> makeCell(pbt::Gen& g, const A& a)
{
    switch (g.below(36))
    {
#define V(N, T) case N: return std::make_unique<ValCell<A, T>>(a);
        V(0, Bool) V(1, Int8) V(2, Int16) V(3, Int32) V(4, Int64) V(5, UInt8) V(6, UInt16) V(7, UInt32) V(8, UInt64) V(9, Int5) V(10, UInt7) V(11, Int33) V(12, UInt63) V(13, DynInt8) V(14, DynInt64)
        V(15, DynUInt16) V(16, DynUInt64) V(17, VarInt16) V(18, VarInt32) V(19, VarInt64) V(20, VarInt) V(21, VarUInt16) V(22, VarUInt) V(23, VarUInt64) V(24, VarSize) V(25, Float16) V(26, Float32)
        V(27, Float64) V(28, sch::Color) V(29, sch::Level) V(30, sch::Perm)
#undef V
    case 31: return std::make_unique<TextCell<A>>(a);
    case 32: return std::make_unique<BlobCell<A, sch::Uni<A>>>(a, [](pbt::Gen& h, const A& al, std::tuple<>&) { return sch::genUni<A>(h, al); });
    case 33:
        return std::make_unique<BlobCell<A, sch::Inner<A>, UInt8>>(a, [](pbt::Gen& h, const A& al, std::tuple<UInt8>& p) {
            const uint8_t v = static_cast<uint8_t>(1 + h.edge(31));
            p = {UInt8(v)};
            return sch::genInner<A>(h, v, al);
        });
    case 34:
        return std::make_unique<BlobCell<A, sch::Chc<A>, UInt8>>(a, [](pbt::Gen& h, const A& al, std::tuple<UInt8>& p) { // may be empty
            const uint8_t v = static_cast<uint8_t>(h.below(8));
            p = {UInt8(v)};
            return sch::genChc<A>(h, v, al);
        });
    default:
        return std::make_unique<BlobCell<A, sch::Main<A>, UInt8>>(a, [](pbt::Gen& h, const A& al, std::tuple<UInt8>& p) {
            const uint8_t v = static_cast<uint8_t>(1 + h.edge(31));
            p = {UInt8(v)};
            sch::Main<A> d = sch::genMain<A>(h, v, al);
            (void)zserio::detail::initializeOffsets(View<sch::Main<A>>(d, UInt8(v)), 0);
            return d;
        });
    }
}
const char* kindName(int t)
{
    switch (t)
    {
    case SQLITE_INTEGER: return "INTEGER";
    case SQLITE_FLOAT: return "REAL";
    case SQLITE_TEXT: return "TEXT";
    case SQLITE_BLOB: return "BLOB";
    default: return "NULL";
    }
}
template <class A>
void columns(pbt::Gen& g, const A& a, trk::Pool* pool)
{
    Db db;
    const size_t n = 1 + g.below(5);
    std::vector<std::unique_ptr<Cell>> cells;
    std::string create = "CREATE TABLE t(";
    std::string insert = "INSERT INTO t VALUES(";
    for (size_t i = 0; i < n; ++i)
    {
        cells.push_back(makeCell(g, a));
        create += (i == 0 ? "c" : ", c") + std::to_string(i) + " " + cells.back()->typeName();
        insert += i == 0 ? "?" : ",?";
        CHECK_EQM(std::string(ValidationSqliteUtil<A>::sqliteColumnTypeName(cells.back()->type())), std::string(cells.back()->typeName()), "declared type of a column");
    }
    exec(db.c, create + ")");
    const size_t rows = 1 + g.below(3);
    std::vector<std::vector<bool>> absent(rows, std::vector<bool>(n));
    // values of one row at a time: written with one statement that is reused, read back with a running query
    Stmt ins = prep(db.c, insert + ")");
    Stmt sel = prep(db.c, "SELECT * FROM t WHERE rowid = ?");
    for (size_t r = 0; r < rows; ++r)
    {
        for (size_t i = 0; i < n; ++i)
        {
            cells[i]->next(g);
            absent[r][i] = g.chance(1, 8);
            g.note(absent[r][i] ? "NULL" : cells[i]->descr());
            g.nontrivial(!absent[r][i] && cells[i]->heavy());
        }
        const size_t used = pool ? pool->res[0].allocations : 0;
        for (size_t i = 0; i < n; ++i)
            if (!absent[r][i]) cells[i]->bind(g, *ins, static_cast<int>(i + 1));
        CHECK_EQM(sqlite3_step(ins.get()), SQLITE_DONE, "insert: " << sqlite3_errmsg(db.c));
        sqlite3_clear_bindings(ins.get());
        sqlite3_reset(ins.get());
        sqlite3_bind_int64(sel.get(), 1, static_cast<int64_t>(r + 1));
        CHECK_EQ(sqlite3_step(sel.get()), SQLITE_ROW);
        for (size_t i = 0; i < n; ++i)
        {
            const int t = sqlite3_column_type(sel.get(), static_cast<int>(i));
            CHECK_EQM(std::string(kindName(t)), std::string(absent[r][i] ? "NULL" : cells[i]->typeName()), "stored type of column " << i << " holding " << cells[i]->descr());
            if (!absent[r][i]) cells[i]->read(g, *sel, static_cast<int>(i));
        }
        if (pool) CHECK_EQM(pool->res[0].allocations, used, "allocations from the default resource");
        sqlite3_reset(sel.get());
    }
    // a column that does not exist is reported
    if (g.chance(1, 4))
    {
        const int bad = g.flip() ? static_cast<int>(n + 1) : 0;
        int rc = zserio::detail::bindColumn(*ins, bad, Int32(1), BitSize(0), a);
        CHECKM(rc != SQLITE_OK, "binding to column " << bad << " of " << n << " is not reported");
    }
}
SUBCHECK(columns, 16000, 800000, "rows of 1 to 5 columns of every supported type (all integer kinds, floats, enums, bitmasks, text with any characters, serialized objects with parameters, also empty ones; std, pmr, ppmr) bound, stored and read back: same values, right SQLite type, NULL exactly for absent values; non-trivial: a non-zero value")
{
    switch (g.below(3))
    {
    case 0: columns(g, StdA{}, nullptr); break;
    case 1: {
        trk::Pool pool;
        columns(g, PmrA(&pool.res[1]), &pool);
        CHECKM(trk::world().err.empty(), trk::world().err);
        break;
    }
    default: {
        trk::Pool pool;
        columns(g, PpmrA(&pool.res[1]), &pool);
        CHECKM(trk::world().err.empty(), trk::world().err);
        break;
    }
    }
}

// ------------------------------------------------------------------------------------------------ connections
struct Hooks
{
    bool refuseCommit = false;
    bool interrupt = false;
    bool deny = false;
};
int onCommit(void* p) { return static_cast<Hooks*>(p)->refuseCommit ? 1 : 0; }
int onProgress(void* p) { return static_cast<Hooks*>(p)->interrupt ? 1 : 0; }
int onAuth(void* p, int code, const char*, const char*, const char*, const char*)
{
    return static_cast<Hooks*>(p)->deny && code == SQLITE_INSERT ? SQLITE_DENY : SQLITE_OK;
}
void setup(sqlite3* c, Hooks& h)
{
    exec(c, "PRAGMA foreign_keys=ON");
    exec(c, "CREATE TABLE t(k INTEGER PRIMARY KEY NOT NULL, v INTEGER CHECK(v < 90))");
    exec(c, "CREATE TABLE p(k INTEGER PRIMARY KEY)");
    exec(c, "CREATE TABLE f(k INTEGER REFERENCES p(k) DEFERRABLE INITIALLY DEFERRED)");
    sqlite3_commit_hook(c, onCommit, &h);
    sqlite3_progress_handler(c, 1, onProgress, &h);
    sqlite3_set_authorizer(c, onAuth, &h);
    if (h.deny) throw std::logic_error("unexpected");
}
std::string dumpAll(sqlite3* c)
{
    return dumpQuery(c, "SELECT name FROM sqlite_master ORDER BY name") + "#" + dumpQuery(c, "SELECT k, v FROM t ORDER BY k") + "#" + dumpQuery(c, "SELECT k FROM p ORDER BY k") + "#" +
            dumpQuery(c, "SELECT k FROM f ORDER BY k");
}
std::string statement(pbt::Gen& g)
{
    const std::string a = std::to_string(g.below(6));
    const std::string b = std::to_string(g.below(100));
    switch (g.below(20))
    {
    case 0:
    case 1:
    case 2: return "INSERT INTO t VALUES(" + a + "," + b + ")";
    case 3: return "UPDATE t SET v = " + b + " WHERE k = " + a;
    case 4: return "DELETE FROM t WHERE k = " + a;
    case 5: return "INSERT INTO p VALUES(" + a + ")";
    case 6: return "INSERT INTO f VALUES(" + a + ")";
    case 7: return "DELETE FROM f WHERE k = " + a;
    case 8: return "DELETE FROM p WHERE k = " + a;
    case 9: return "INSERT INTO missing VALUES(1)";
    case 10: return "INSERT INTO";
    case 11: return "SELECT count(*) FROM t";
    case 12: return "ROLLBACK";
    case 13: return "SAVEPOINT s" + a;
    case 14: return g.flip() ? "RELEASE s" + a : "ROLLBACK TO s" + a;
    case 15: return std::string("PRAGMA query_only=") + (g.flip() ? "1" : "0");
    case 16: return "CREATE TABLE x" + a + "(y)";
    case 17: return "DROP TABLE x" + a;
    case 18: return g.flip() ? "" : "-- nothing";
    default: return g.flip() ? "BEGIN" : "COMMIT";
    }
}
// run through the connection, the reference gives the result code
template <class F>
void against(int rc, const char* what, F run)
{
    std::string msg;
    bool thrown = false;
    try
    {
        run();
    }
    catch (const SqliteException& e)
    {
        thrown = true;
        msg = e.what();
    }
    if (rc == SQLITE_DONE) CHECKM(!thrown, what << ": failed: " << msg);
    else
    {
        CHECKM(thrown, what << ": the database reports '" << sqlite3_errstr(rc) << "' but no error is raised");
        CHECKM(msg.find(sqlite3_errstr(rc)) != std::string::npos, what << ": error text '" << msg << "' lacks '" << sqlite3_errstr(rc) << "'");
    }
}
SUBCHECK(histories, 8000, 400000, "a history of statements (also failing: constraints, syntax, denied, interrupted, read-only, refused commit), nested transactions and raw transaction commands on a connection and, through the plain C interface, on a twin database: same success, error text, transaction state and content after every step, no statement left open; non-trivial: a transaction is open at some step or a statement fails")
{
    Db twin;
    SqliteConnection con(openDb());
    Hooks ht;
    Hooks hc;
    setup(twin.c, ht);
    setup(con.getConnection(), hc);
    std::vector<bool> nest;
    const size_t steps = 2 + g.below(20);
    for (size_t i = 0; i < steps; ++i)
    {
        switch (g.below(8))
        {
        case 0:
        case 1: {
            g.note("start");
            int rc = SQLITE_DONE;
            const bool start = sqlite3_get_autocommit(twin.c) != 0;
            if (start) rc = rawRun(twin.c, "BEGIN;");
            bool r = false;
            against(rc, "startTransaction", [&] { r = con.startTransaction(); });
            if (rc == SQLITE_DONE)
            {
                CHECK_EQM(r, start, "startTransaction result");
                nest.push_back(start);
            }
            break;
        }
        case 2: {
            const bool f = nest.empty() ? g.flip() : static_cast<bool>(nest.back());
            if (!nest.empty()) nest.pop_back();
            g.note(f ? "end(true)" : "end(false)");
            const int rc = f ? rawRun(twin.c, "COMMIT;") : SQLITE_DONE;
            against(rc, "endTransaction", [&] { con.endTransaction(f); });
            g.nontrivial(rc != SQLITE_DONE);
            break;
        }
        case 3: {
            bool Hooks::*m = g.pick({&Hooks::refuseCommit, &Hooks::interrupt, &Hooks::deny});
            const bool on = g.chance(1, 2);
            ht.*m = on;
            hc.*m = on;
            break;
        }
        default: {
            const std::string sql = statement(g);
            g.note(sql);
            const int rc = rawRun(twin.c, sql);
            g.nontrivial(rc != SQLITE_DONE);
            // the view ends where the statement ends, garbage follows
            const std::string longer = sql + (g.flip() ? "" : " garbage(");
            against(rc, sql.c_str(), [&] { con.executeUpdate(std::string_view(longer).substr(0, sql.size())); });
            break;
        }
        }
        const Hooks save = ht;
        ht = hc = Hooks();
        CHECK_EQM(sqlite3_get_autocommit(con.getConnection()), sqlite3_get_autocommit(twin.c), "transaction state");
        g.nontrivial(sqlite3_get_autocommit(twin.c) == 0);
        CHECK_EQM(dumpAll(con.getConnection()), dumpAll(twin.c), "content");
        CHECKM(sqlite3_next_stmt(con.getConnection(), nullptr) == nullptr, "a statement was left open");
        ht = hc = save;
    }
    ht = hc = Hooks();
    // only what was committed stays
    if (sqlite3_get_autocommit(twin.c) == 0)
    {
        exec(twin.c, "ROLLBACK");
        exec(con.getConnection(), "ROLLBACK");
    }
    CHECK_EQM(dumpAll(con.getConnection()), dumpAll(twin.c), "committed content");
}

SUBCHECK(memory_faults, 6000, 300000, "the n-th allocation inside SQLite fails during executeUpdate, transactions or schema queries: either the statement took effect and no error is raised or an error is raised and nothing changed; no statement is left open; non-trivial: an allocation failed")
{
    SqliteConnection con(openDb());
    sqlite3* c = con.getConnection();
    exec(c, "CREATE TABLE t(k INTEGER PRIMARY KEY NOT NULL, v TEXT)");
    exec(c, "INSERT INTO t VALUES(1, 'one')");
    const std::string before = dumpQuery(c, "SELECT * FROM t ORDER BY k");
    const int kind = static_cast<int>(g.below(5));
    bool thrown = false;
    bool result = false;
    size_t rows = 0;
    std::allocator<uint8_t> al;
    ValidationSqliteUtil<StdA>::TableSchema schema;
    g_failed = false;
    g_failAt = static_cast<long>(g.below(40));
    g.note("kind " + std::to_string(kind) + " fault at " + std::to_string(g_failAt));
    try
    {
        switch (kind)
        {
        case 0: con.executeUpdate("INSERT INTO t VALUES(2, 'two')"); break;
        case 1: con.executeUpdate("UPDATE t SET v = v || 'and a longer text that needs memory' WHERE k = 1"); break;
        case 2: result = con.startTransaction(); break;
        case 3: rows = ValidationSqliteUtil<StdA>::getNumberOfTableRows(con, "", "t", al); break;
        default: ValidationSqliteUtil<StdA>::getTableSchema(con, "", "t", schema, al); break;
        }
    }
    catch (const SqliteException&)
    {
        thrown = true;
    }
    g_failAt = -1;
    g.nontrivial(g_failed);
    const std::string after = dumpQuery(c, "SELECT * FROM t ORDER BY k");
    CHECKM(sqlite3_next_stmt(c, nullptr) == nullptr, "a statement was left open");
    if (!g_failed) CHECKM(!thrown, "an error without a fault");
    switch (kind)
    {
    case 0:
    case 1: CHECK_EQM(after != before, !thrown, "the statement took effect"); break;
    case 2:
        CHECK_EQM(sqlite3_get_autocommit(c) == 0, !thrown, "transaction is open");
        if (!thrown) CHECK(result);
        break;
    case 3:
        if (!thrown) CHECK_EQM(rows, size_t(1), "number of rows");
        break;
    default:
        if (!thrown) CHECK_EQM(schema.size(), size_t(2), "number of columns");
        break;
    }
}

// ------------------------------------------------------------------------------------------------ ownership
void noFunction(sqlite3_context*, int, sqlite3_value**) {}
void onClosed(void* p) { ++*static_cast<int*>(p); }
SUBCHECK(ownership, 15000, 600000, "a history of constructing, resetting and destroying connections over internal and external databases, some with a statement still open: internal ones are closed exactly once and no earlier than released, external ones never; non-trivial: an internal connection is replaced")
{
    struct D
    {
        sqlite3* c = nullptr;
        int closed = 0;
        int expected = 0; // 1 as soon as it must be closed
        bool released = false;
        sqlite3_stmt* open = nullptr;
    };
    std::deque<D> dbs; // stable addresses
    auto fresh = [&]() -> D& {
        dbs.emplace_back();
        D& d = dbs.back();
        d.c = openDb();
        sqlite3_create_function_v2(d.c, "marker", 0, SQLITE_UTF8, &d.closed, noFunction, nullptr, nullptr, onClosed);
        if (g.chance(1, 4)) d.open = prep(d.c, "SELECT 1").release();
        return d;
    };
    struct Slot
    {
        std::unique_ptr<SqliteConnection> con;
        D* held = nullptr;
        SqliteConnection::ConnectionType type = SqliteConnection::INTERNAL_CONNECTION;
    };
    std::vector<Slot> slots(2);
    auto release = [&](Slot& s) {
        if (s.held && s.type == SqliteConnection::INTERNAL_CONNECTION)
        {
            g.nontrivial();
            s.held->released = true;
        }
        s.held = nullptr;
        s.type = SqliteConnection::INTERNAL_CONNECTION;
    };
    std::vector<D*> ext; // external ones are closed by the test
    const size_t steps = 2 + g.below(10);
    for (size_t i = 0; i < steps; ++i)
    {
        Slot& s = slots[g.below(slots.size())];
        const auto type = g.flip() ? SqliteConnection::INTERNAL_CONNECTION : SqliteConnection::EXTERNAL_CONNECTION;
        switch (g.below(6))
        {
        case 0: {
            g.note("construct");
            D& d = fresh();
            s.con.reset();
            release(s);
            if (type == SqliteConnection::INTERNAL_CONNECTION && g.flip()) s.con = std::make_unique<SqliteConnection>(d.c);
            else s.con = std::make_unique<SqliteConnection>(d.c, type);
            s.held = &d;
            s.type = type;
            if (type == SqliteConnection::EXTERNAL_CONNECTION) ext.push_back(&d);
            break;
        }
        case 1:
            g.note("construct empty");
            s.con.reset();
            release(s);
            s.con = std::make_unique<SqliteConnection>();
            break;
        case 2:
        case 3: {
            if (!s.con) break;
            g.note("reset to another");
            D& d = fresh();
            if (type == SqliteConnection::INTERNAL_CONNECTION && g.flip()) s.con->reset(d.c);
            else s.con->reset(d.c, type);
            release(s);
            s.held = &d;
            s.type = type;
            if (type == SqliteConnection::EXTERNAL_CONNECTION) ext.push_back(&d);
            break;
        }
        case 4:
            if (!s.con) break;
            g.note("reset");
            s.con->reset();
            release(s);
            break;
        default:
            g.note("destroy");
            s.con.reset();
            release(s);
            break;
        }
        if (g.chance(1, 3))
            for (auto& d : dbs)
                if (d.open)
                {
                    sqlite3_finalize(d.open);
                    d.open = nullptr;
                    break;
                }
        for (const auto& t : slots)
        {
            if (!t.con) continue;
            CHECKM(t.con->getConnection() == (t.held ? t.held->c : nullptr), "the connection reported is not the one given");
            CHECK_EQM(static_cast<int>(t.con->getConnectionType()), static_cast<int>(t.type), "connection type");
        }
        for (const auto& d : dbs)
        {
            const int e = d.released && d.open == nullptr ? 1 : 0;
            CHECK_EQM(d.closed, e, "number of times a database was closed (owned " << d.released << ")");
            if (e == 0 && !d.released) CHECK_EQM(dumpQuery(d.c, "SELECT 1"), std::string("1|\n"), "a database not yet released answers");
        }
    }
    slots.clear();
    for (auto& d : dbs)
    {
        bool isExt = false;
        for (D* e : ext) isExt = isExt || e == &d;
        if (d.open)
        {
            sqlite3_finalize(d.open);
            d.open = nullptr;
        }
        CHECK_EQM(d.closed, isExt ? 0 : 1, "number of times a database was closed at the end");
        if (isExt) CHECK_EQM(sqlite3_close(d.c), SQLITE_OK, "an external connection is left clean");
    }
}

// prepared statements
SUBCHECK(prepared, 15000, 500000, "prepareStatement with any statement text given as a part of a longer text: the statement of exactly that text, or an error with the message of the database; non-trivial: prepared")
{
    SqliteConnection con(openDb());
    Db twin;
    Hooks h;
    setup(con.getConnection(), h);
    setup(twin.c, h);
    const std::string sql = g.chance(1, 6) ? g.ascii(20) : statement(g);
    sqlite3_stmt* ref = nullptr;
    const int rc = sqlite3_prepare_v2(twin.c, sql.c_str(), static_cast<int>(sql.size()), &ref, nullptr);
    Stmt hold(ref, sqlite3_finalize);
    const std::vector<char> mem(sql.begin(), sql.end());
    std::string longer = sql + "; garbage";
    std::string_view view = g.flip() ? std::string_view(mem.data(), mem.size()) : std::string_view(longer).substr(0, sql.size());
    if (view.data() == nullptr) view = "";
    sqlite3_stmt* st = nullptr;
    against(rc == SQLITE_OK ? SQLITE_DONE : rc, sql.c_str(), [&] { st = con.prepareStatement(view); });
    std::unique_ptr<sqlite3_stmt, SqliteFinalizer> own(st);
    g.nontrivial(ref != nullptr);
    CHECK_EQM(st != nullptr, ref != nullptr, "a statement is prepared");
    if (st && ref) CHECK_EQM(std::string(sqlite3_sql(st)), std::string(sqlite3_sql(ref)), "text of the statement");
    own.reset();
    CHECKM(sqlite3_next_stmt(con.getConnection(), nullptr) == nullptr, "a statement was left open");
}

// ------------------------------------------------------------------------------------------------ schema queries
template <class A>
void schemaQueries(pbt::Gen& g, const A& a, trk::Pool* pool)
{
    using U = ValidationSqliteUtil<A>;
    SqliteConnection con(openDb());
    sqlite3* c = con.getConnection();
    exec(c, "ATTACH ':memory:' AS other");
    struct Col
    {
        std::string name, type;
        bool notNull, pk;
    };
    struct Table
    {
        std::string db, name;
        std::vector<Col> cols;
        std::vector<std::string> hidden;
        size_t rows = 0;
        bool rowid = true;
    };
    std::vector<Table> tables;
    const size_t nt = 1 + g.below(3);
    for (size_t k = 0; k < nt; ++k)
    {
        Table t;
        t.db = g.pick({"", "main", "other"});
        t.name = "tab" + std::to_string(g.chance(1, 3) ? 0 : k);
        bool dup = false;
        for (const auto& o : tables) dup = dup || (o.name == t.name && (o.db == "other") == (t.db == "other"));
        if (dup) continue;
        std::string sql = "CREATE TABLE " + (t.db.empty() ? "" : t.db + ".") + t.name + "(";
        std::string key;
        const size_t nc = 1 + g.below(6);
        for (size_t i = 0; i < nc; ++i)
        {
            Col x;
            x.name = g.pick({"id", "value", "Field", "long_name_of_a_column_that_needs_memory_", "x"}) + std::to_string(i);
            x.type = g.pick({"INTEGER", "REAL", "TEXT", "BLOB", ""});
            x.notNull = g.flip();
            x.pk = g.chance(1, 3);
            sql += (i ? ", " : "") + x.name + " " + x.type + (x.notNull ? " NOT NULL" : "");
            if (x.pk) key += (key.empty() ? "" : ", ") + x.name;
            t.cols.push_back(x);
        }
        if (g.chance(1, 5))
        { // not among the listed columns, but selectable
            sql += ", hid GENERATED ALWAYS AS (" + t.cols[0].name + ")";
            t.hidden.push_back("hid");
        }
        if (!key.empty()) sql += ", PRIMARY KEY(" + key + ")";
        sql += ")";
        if (!key.empty() && g.chance(1, 3))
        {
            sql += " WITHOUT ROWID";
            t.rowid = false;
            for (auto& x : t.cols) x.notNull = x.notNull || x.pk; // implied by SQLite
        }
        g.note(sql);
        exec(c, sql);
        t.rows = g.below(5);
        std::string ins = "INSERT INTO " + (t.db.empty() ? "" : t.db + ".") + t.name + " VALUES(";
        for (size_t i = 0; i < nc; ++i) ins += i ? ",?1" : "?1";
        for (size_t r = 0; r < t.rows; ++r)
        {
            Stmt s = prep(c, ins + ")");
            sqlite3_bind_int64(s.get(), 1, static_cast<int64_t>(r + 100));
            CHECK_EQM(sqlite3_step(s.get()), SQLITE_DONE, "harness insert " << sqlite3_errmsg(c));
        }
        tables.push_back(std::move(t));
    }
    const size_t used = pool ? pool->res[0].allocations : 0;
    for (const auto& t : tables)
    {
        g.nontrivial(t.cols.size() > 1);
        const std::string nameMem = t.name + "_more";
        const std::string_view name = std::string_view(nameMem).substr(0, t.name.size());
        const std::string dbMem = t.db + "_more";
        const std::string_view db = std::string_view(dbMem).substr(0, t.db.size());
        CHECK_EQM(U::getNumberOfTableRows(con, db, name, a), t.rows, "number of rows of " << t.name);
        typename U::TableSchema schema((std::less<typename U::StringType>()), a);
        U::getTableSchema(con, db, name, schema, a);
        CHECK_EQM(schema.size(), t.cols.size(), "number of columns of " << t.name);
        for (const auto& x : t.cols)
        {
            typename U::StringType k(x.name.data(), x.name.size(), a);
            auto it = schema.find(k);
            CHECKM(it != schema.end(), "column " << x.name << " is missing");
            CHECK_EQ(std::string(it->second.name.c_str()), x.name);
            CHECK_EQ(std::string(it->second.type.c_str()), x.type);
            CHECK_EQM(it->second.isNotNull, x.notNull, "not null of " << x.name);
            CHECK_EQM(it->second.isPrimaryKey, x.pk, "primary key of " << x.name);
            const std::string colMem = x.name + "0";
            CHECKM(U::isColumnInTable(con, db, name, std::string_view(colMem).substr(0, x.name.size()), a), "column " << x.name << " is not found");
            CHECKM(!U::isColumnInTable(con, db, name, "no" + x.name, a), "an undeclared column is found");
        }
        for (const auto& x : t.hidden)
        {
            CHECKM(U::isColumnInTable(con, db, name, x, a), "hidden column is not found");
            CHECKM(schema.find(typename U::StringType(x.data(), x.size(), a)) == schema.end(), "hidden column is listed");
        }
        if (t.hidden.empty()) CHECKM(!U::isColumnInTable(con, db, name, "hid", a), "an undeclared column is found");
        CHECK(!U::isColumnInTable(con, db, "nothere", t.cols[0].name, a));
        CHECK(!U::isColumnInTable(con, "nothere", name, t.cols[0].name, a));
    }
    // what does not exist
    auto fails = [&](auto f) {
        try
        {
            f();
        }
        catch (const SqliteException& e)
        {
            return std::string(e.what()).find("error") != std::string::npos;
        }
        return false;
    };
    CHECKM(fails([&] { (void)U::getNumberOfTableRows(con, "", "nothere", a); }), "rows of a missing table");
    CHECKM(fails([&] { (void)U::getNumberOfTableRows(con, "nothere", tables[0].name, a); }), "rows of a missing database");
    typename U::TableSchema none((std::less<typename U::StringType>()), a);
    U::getTableSchema(con, "", "nothere", none, a);
    CHECKM(none.empty(), "columns of a missing table");
    CHECKM(fails([&] { U::getTableSchema(con, "nothere", tables[0].name, none, a); }), "schema of a missing database");
    if (pool)
    {
        (void)used;
        CHECK_EQM(pool->res[0].allocations, used, "allocations from the default resource");
    }
    CHECKM(sqlite3_next_stmt(c, nullptr) == nullptr, "a statement was left open");
}
SUBCHECK(schemas, 8000, 300000, "random tables in main and attached databases (types, NOT NULL, composite keys, hidden columns, WITHOUT ROWID): listed columns, flags, row counts and column lookups are exactly the declared ones, missing tables and databases are reported, all memory from the given allocator; non-trivial: more than one column")
{
    switch (g.below(3))
    {
    case 0: schemaQueries(g, StdA{}, nullptr); break;
    case 1: {
        trk::Pool pool;
        schemaQueries(g, PmrA(&pool.res[1]), &pool);
        CHECKM(trk::world().err.empty(), trk::world().err);
        break;
    }
    default: {
        trk::Pool pool;
        schemaQueries(g, PpmrA(&pool.res[1]), &pool);
        CHECKM(trk::world().err.empty(), trk::world().err);
        break;
    }
    }
}
} // namespace
