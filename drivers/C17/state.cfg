tu C17/fail.cpp
fn ^_ZN3etr(3ass|4warn)E
