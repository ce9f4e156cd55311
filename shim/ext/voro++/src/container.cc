// see cell.cc
