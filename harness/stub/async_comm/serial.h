#pragma once
#include <string>
#include "async_comm/comm.h"
namespace async_comm
{
class Serial : public Comm
{
 public:
    Serial(std::string = "", unsigned = 0) {}
};
}  // namespace async_comm
