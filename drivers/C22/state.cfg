tu C*/*.cpp
fn .
