// the machine and user identity that the secure containers mix into their keys: fixed values
#pragma once
#include <string>
#include "SystemTools.h"
namespace CEX { namespace Tools { std::string SystemTools::ComputerName(){ return std::string("host"); } std::string SystemTools::OsName(){ return std::string("os"); } uint32_t SystemTools::ProcessId(){ return 4711; } std::string SystemTools::UserName(){ return std::string("user"); } std::string SystemTools::UserId(){ return std::string("S-1-5-21"); } } }
