// a scratch file in the check's own build directory, removed when it goes out of scope
#pragma once
#include <cstdio>
#include <fstream>
#include <string>
#include <unistd.h>
struct TmpFile
{
    std::string name;
    TmpFile(const std::string& text)
    {
        static int n = 0;
        name = "./scratch-" + std::to_string(getpid()) + "-" + std::to_string(n++ % 8) + ".info";
        std::ofstream(name) << text;
    }
    TmpFile(const TmpFile&) = delete;
    ~TmpFile() { std::remove(name.c_str()); }
};
