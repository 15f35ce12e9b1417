// stand-in for the XRootD link (not installed here): only ever used through a null pointer
#pragma once
struct XrdLink { const char *Host() { return "xrd"; } int Recv(char *, int, int) { return -1; } int Send(const char *, int) { return -1; } int Close(int) { return 0; } };
