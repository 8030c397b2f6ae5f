#pragma once
enum { VS_ALLOC = 1, VS_QAG = 2, VS_OUTER = 4, VS_INNER = 8, VS_SYNC = 16 };
extern "C" void vs_point(int kind);
extern "C" void vs_live_workspaces(int d);
