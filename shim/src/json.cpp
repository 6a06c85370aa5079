#include "score/json/json_parser.h"
#include "score/json/json_writer.h"
#include "score/os/verif_os.h"
#include <nlohmann/json.hpp>
#include <fstream>
#include <sstream>
namespace score
{
namespace json
{
namespace
{
Any Conv(const nlohmann::json& j)
{
    switch (j.type())
    {
        case nlohmann::json::value_t::boolean:
            return Any{j.get<bool>()};
        case nlohmann::json::value_t::number_integer:
            return Any{j.get<std::int64_t>()};
        case nlohmann::json::value_t::number_unsigned:
            return Any{j.get<std::uint64_t>()};
        case nlohmann::json::value_t::number_float:
            return Any{j.get<double>()};
        case nlohmann::json::value_t::string:
            return Any{j.get<std::string>()};
        case nlohmann::json::value_t::object:
        {
            Object o;
            for (auto it = j.begin(); it != j.end(); ++it)
            {
                o[Key{it.key()}] = Conv(it.value());
            }
            return Any{std::move(o)};
        }
        case nlohmann::json::value_t::array:
        {
            List l;
            for (const auto& e : j)
            {
                l.emplace_back(Conv(e));
            }
            return Any{std::move(l)};
        }
        default:
            return Any{};
    }
}
nlohmann::json Back(const Any& a)
{
    struct V
    {
        nlohmann::json operator()(std::nullptr_t) const { return nullptr; }
        nlohmann::json operator()(bool b) const { return b; }
        nlohmann::json operator()(std::int64_t b) const { return b; }
        nlohmann::json operator()(std::uint64_t b) const { return b; }
        nlohmann::json operator()(double b) const { return b; }
        nlohmann::json operator()(const std::string& b) const { return b; }
        nlohmann::json operator()(const Object& b) const
        {
            nlohmann::json o = nlohmann::json::object();
            for (const auto& kv : b)
            {
                o[std::string{kv.first.GetAsStringView()}] = Back(kv.second);
            }
            return o;
        }
        nlohmann::json operator()(const List& b) const
        {
            nlohmann::json o = nlohmann::json::array();
            for (const auto& e : b)
            {
                o.push_back(Back(e));
            }
            return o;
        }
    };
    return std::visit(V{}, a.raw());
}
score::Result<std::string> Dump(const Any& a)
{
    try
    {
        return Back(a).dump(4);
    }
    catch (const std::exception&)
    {
        return MakeUnexpected(Error::kUnknownError);
    }
}
}  // namespace
score::Result<Any> JsonParser::FromBuffer(const std::string_view buffer) const noexcept
{
    auto j = nlohmann::json::parse(buffer.begin(), buffer.end(), nullptr, false, false);
    if (j.is_discarded())
    {
        return MakeUnexpected(Error::kParsingError);
    }
    return Conv(j);
}
score::Result<Any> JsonParser::FromFile(const std::string_view path) const noexcept
{
    std::ifstream f{verif_shim::OsControl::Get().Map(std::string{path})};
    if (!f)
    {
        return MakeUnexpected(Error::kInvalidFilePath);
    }
    std::stringstream ss;
    ss << f.rdbuf();
    return FromBuffer(ss.str());
}
Any operator""_json(const char* data, std::size_t size)
{
    auto r = JsonParser{}.FromBuffer({data, size});
    return std::move(r).value();
}
score::Result<std::string> JsonWriter::ToBuffer(const Any& o) const
{
    return Dump(o);
}
score::Result<std::string> JsonWriter::ToBuffer(const Object& o) const
{
    return Dump(Any{o});
}
score::Result<std::string> JsonWriter::ToBuffer(const List& o) const
{
    return Dump(Any{o});
}
score::Result<void> JsonWriter::ToFile(const Object& o, const std::string_view path) const
{
    auto s = ToBuffer(o);
    if (!s.has_value())
    {
        return Unexpected{s.error()};
    }
    std::ofstream f{verif_shim::OsControl::Get().Map(std::string{path})};
    f << s.value();
    return {};
}
}  // namespace json
}  // namespace score
