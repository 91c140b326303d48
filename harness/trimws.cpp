#include "string_trim.hxx"
void trimWs(std::string& s) { ansak::trimWhiteSpace(s); }
