#pragma once
#include <string>
namespace c17 {
int opCount(); const char *opName(int);
void opRun(int op, std::string &out);            // on objects of its own
int roCount(); const char *roName(int);
void *roObjects(int set); int roSets();           // shared objects, made before the threads start
void roRun(int op, void *objs, std::string &out); // read-only operation on shared objects
void warm();                                      // initialise what the documented functions initialise on first use
}
