// What the build script of Current generates, with constants: the real file is not in the repository.
#ifndef CURRENT_BUILD_H
#define CURRENT_BUILD_H
#include <chrono>
#include <string>
#include <tuple>
#include <vector>
#include "typesystem/optional.h"
#include "typesystem/struct.h"
namespace current {
namespace build {
CURRENT_STRUCT(BuildInfo) {
  CURRENT_FIELD(build_time, std::string, "then");
  CURRENT_FIELD(build_time_epoch_microseconds, std::chrono::microseconds, std::chrono::microseconds(42));
  CURRENT_FIELD(git_commit_hash, Optional<std::string>);
  CURRENT_FIELD(git_branch, Optional<std::string>);
  CURRENT_FIELD(git_dirty_files, Optional<std::vector<std::string>>);
  bool operator==(const BuildInfo& rhs) const {
    return build_time == rhs.build_time && build_time_epoch_microseconds == rhs.build_time_epoch_microseconds &&
           git_commit_hash == rhs.git_commit_hash && git_branch == rhs.git_branch && git_dirty_files == rhs.git_dirty_files;
  }
  bool operator!=(const BuildInfo& rhs) const { return !operator==(rhs); }
};
}  // namespace build
}  // namespace current
#endif
