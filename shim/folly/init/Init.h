#pragma once
namespace folly { inline void init(int*, char***, bool = true) {} struct Init { Init(int*, char***, bool = true) {} }; struct SingletonVault { static void destroyInstances() {} static SingletonVault* singleton() { static SingletonVault v; return &v; } }; }
