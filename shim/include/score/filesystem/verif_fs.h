#ifndef VERIF_SHIM_VERIF_FS_H
#define VERIF_SHIM_VERIF_FS_H
#include "score/filesystem/error.h"
#include "score/filesystem/file_status.h"
#include "score/filesystem/path.h"
#include "score/os/verif_os.h"
#include "score/result/result.h"
#include <sys/stat.h>
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iterator>
#include <memory>
#include <vector>
namespace score
{
namespace filesystem
{
namespace detail_fs
{
inline std::string Map(const Path& p) { return ::verif_shim::OsControl::Get().Map(p.Native()); }
inline Result<FileStatus> StatusOf(const Path& p)
{
    if (::verif_shim::OsControl::Get().Fail("fs_status", p.Native()) != 0)
    {
        return MakeUnexpected(ErrorCode::kCouldNotRetrieveStatus);
    }
    struct ::stat s
    {
    };
    if (::stat(Map(p).c_str(), &s) != 0)
    {
        if (errno == ENOENT || errno == ENOTDIR)
        {
            return FileStatus{FileType::kNotFound};
        }
        return MakeUnexpected(ErrorCode::kCouldNotRetrieveStatus);
    }
    const auto t = S_ISREG(s.st_mode) ? FileType::kRegular : S_ISDIR(s.st_mode) ? FileType::kDirectory : FileType::kUnknown;
    return FileStatus{t, static_cast<Perms>(s.st_mode & 0777U)};
}
}  // namespace detail_fs
class DirectoryEntry
{
  public:
    explicit DirectoryEntry(Path p) : p_(std::move(p)) {}
    const Path& GetPath() const noexcept { return p_; }
    Result<FileStatus> Status() const noexcept { return detail_fs::StatusOf(p_); }
    Result<bool> IsDirectory() const
    {
        const auto s = Status();
        return s.has_value() && s->Type() == FileType::kDirectory;
    }

  private:
    Path p_;
};
class DirectoryIterator
{
  public:
    using iterator_category = std::input_iterator_tag;
    using value_type = DirectoryEntry;
    using difference_type = std::ptrdiff_t;
    using pointer = const DirectoryEntry*;
    using reference = const DirectoryEntry&;
    DirectoryIterator() = default;
    explicit DirectoryIterator(const Path& p) : e_(std::make_shared<std::vector<DirectoryEntry>>())
    {
        std::error_code ec;
        std::vector<std::string> names;
        for (std::filesystem::directory_iterator it{detail_fs::Map(p), ec}, end; !ec && it != end; it.increment(ec))
        {
            names.push_back(it->path().filename().native());
        }
        std::sort(names.begin(), names.end());
        for (const auto& n : names)
        {
            e_->emplace_back(p / Path{n});
        }
        Normalise();
    }
    const DirectoryEntry& operator*() const { return (*e_)[i_]; }
    const DirectoryEntry* operator->() const { return &(*e_)[i_]; }
    DirectoryIterator& operator++()
    {
        ++i_;
        Normalise();
        return *this;
    }
    friend bool operator==(const DirectoryIterator& a, const DirectoryIterator& b) { return a.e_ == b.e_ && a.i_ == b.i_; }
    friend bool operator!=(const DirectoryIterator& a, const DirectoryIterator& b) { return !(a == b); }

  private:
    void Normalise()
    {
        if (e_ && i_ >= e_->size())
        {
            e_.reset();
            i_ = 0U;
        }
    }
    std::shared_ptr<std::vector<DirectoryEntry>> e_;
    std::size_t i_{0U};
};
inline DirectoryIterator begin(DirectoryIterator d) noexcept { return d; }
inline DirectoryIterator end(const DirectoryIterator&) noexcept { return DirectoryIterator{}; }
class IStandardFilesystem
{
  public:
    virtual ~IStandardFilesystem() = default;
    virtual Result<bool> Exists(const Path& p) const noexcept = 0;
    virtual Result<FileStatus> Status(const Path& p) const noexcept = 0;
    virtual Result<void> Remove(const Path& p) const noexcept = 0;
    virtual Result<void> RemoveAll(const Path& p) const noexcept = 0;
    virtual Result<void> Permissions(const Path& p, Perms m, PermOptions o) const noexcept = 0;
    virtual Result<void> CreateDirectory(const Path& p) const noexcept = 0;
};
class StandardFilesystem : public IStandardFilesystem
{
  public:
    Result<bool> Exists(const Path& p) const noexcept override
    {
        const auto s = Status(p);
        if (!s.has_value())
        {
            return Unexpected{s.error()};
        }
        return s->Type() != FileType::kNotFound;
    }
    Result<FileStatus> Status(const Path& p) const noexcept override { return detail_fs::StatusOf(p); }
    Result<void> Remove(const Path& p) const noexcept override
    {
        if (::verif_shim::OsControl::Get().Fail("fs_remove", p.Native()) != 0)
        {
            return MakeUnexpected(ErrorCode::kCouldNotRemoveFileOrDirectory);
        }
        std::error_code ec;
        if (!std::filesystem::remove(detail_fs::Map(p), ec) || ec)
        {
            return MakeUnexpected(ErrorCode::kCouldNotRemoveFileOrDirectory);
        }
        return {};
    }
    Result<void> RemoveAll(const Path& p) const noexcept override
    {
        if (::verif_shim::OsControl::Get().root.empty())
        {
            return MakeUnexpected(ErrorCode::kNotImplemented);
        }
        std::error_code ec;
        std::filesystem::remove_all(detail_fs::Map(p), ec);
        return {};
    }
    Result<void> Permissions(const Path& p, Perms m, PermOptions) const noexcept override
    {
        if (::verif_shim::OsControl::Get().Fail("fs_permissions", p.Native()) != 0 ||
            ::chmod(detail_fs::Map(p).c_str(), static_cast<mode_t>(m)) != 0)
        {
            return MakeUnexpected(ErrorCode::kCouldNotSetPermissions);
        }
        return {};
    }
    Result<void> CreateDirectory(const Path& p) const noexcept override
    {
        if (::mkdir(detail_fs::Map(p).c_str(), 0777) != 0)
        {
            return MakeUnexpected(ErrorCode::kCouldNotCreateDirectory);
        }
        return {};
    }
};
class IFileUtils
{
  public:
    virtual ~IFileUtils() = default;
    virtual Result<void> CreateDirectories(const Path& p, Perms m) const noexcept = 0;
};
class FileUtils : public IFileUtils
{
  public:
    Result<void> CreateDirectories(const Path& p, Perms m) const noexcept override
    {
        if (::verif_shim::OsControl::Get().Fail("fs_mkdirs", p.Native()) != 0)
        {
            return MakeUnexpected(ErrorCode::kCouldNotCreateDirectory);
        }
        std::filesystem::path cur;
        const std::filesystem::path full{detail_fs::Map(p)};
        for (const auto& part : full)
        {
            cur /= part;
            if (::mkdir(cur.c_str(), static_cast<mode_t>(m)) == 0)
            {
                (void)::chmod(cur.c_str(), static_cast<mode_t>(m));
            }
            else if (errno != EEXIST)
            {
                return MakeUnexpected(ErrorCode::kCouldNotCreateDirectory);
            }
        }
        struct ::stat s
        {
        };
        if (::stat(full.c_str(), &s) != 0 || !S_ISDIR(s.st_mode))
        {
            return MakeUnexpected(ErrorCode::kCouldNotCreateDirectory);
        }
        return {};
    }
};
class IFileFactory
{
  public:
    virtual ~IFileFactory() = default;
    virtual Result<std::unique_ptr<std::iostream>> Open(const Path& p, std::ios_base::openmode m) const noexcept = 0;
};
class FileFactory : public IFileFactory
{
  public:
    Result<std::unique_ptr<std::iostream>> Open(const Path& p, std::ios_base::openmode m) const noexcept override
    {
        if (::verif_shim::OsControl::Get().Fail("fs_open", p.Native()) != 0)
        {
            return MakeUnexpected(ErrorCode::kCouldNotOpenFileStream);
        }
        auto s = std::make_unique<std::fstream>(detail_fs::Map(p), m);
        if (!s->is_open())
        {
            return MakeUnexpected(ErrorCode::kCouldNotOpenFileStream);
        }
        return Result<std::unique_ptr<std::iostream>>{std::unique_ptr<std::iostream>{std::move(s)}};
    }
};
struct Filesystem
{
    std::shared_ptr<IStandardFilesystem> standard;
    std::shared_ptr<IFileUtils> utils;
    std::shared_ptr<IFileFactory> streams;
};
class IFilesystemFactory
{
  public:
    virtual ~IFilesystemFactory() = default;
    virtual Filesystem CreateInstance() const noexcept = 0;
};
class FilesystemFactory : public IFilesystemFactory
{
  public:
    Filesystem CreateInstance() const noexcept override
    {
        return Filesystem{std::make_shared<StandardFilesystem>(), std::make_shared<FileUtils>(), std::make_shared<FileFactory>()};
    }
};
}  // namespace filesystem
}  // namespace score
#endif
