// What the code under test wrote to the console (engine only).
#pragma once
#include <string>
#include <vector>
#include <vpenv.hpp>
namespace vpcon {
struct Piece
{
    int which; // 1 stdout, 2 stderr
    std::string text;
};
extern std::vector<Piece>* pieces;
}
