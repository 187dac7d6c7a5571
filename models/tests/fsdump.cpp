#include <vector>
#include <filesystem>
#include <cstdio>
#include <string>
namespace fs = std::filesystem;
int main(){ char const al[]="ab./"; std::vector<std::string> all{""}; 
 for(size_t b=0,n=1;n<=6;++n){ size_t e=all.size(); for(;b<e;++b) for(int k=0;k<4;++k) all.push_back(all[b]+al[k]); }
 for(auto&s:all){ fs::path p(s); printf("%s|%s|%s|%s|%s|%s|%d%d|",s.c_str(),p.parent_path().c_str(),p.filename().c_str(),p.stem().c_str(),p.extension().c_str(),p.lexically_normal().c_str(),p.has_filename(),p.is_absolute()); for(auto const&c:p) printf("<%s>",c.c_str()); fs::path q(s); q.replace_extension("x"); printf("|%s",q.c_str()); q=p; q.remove_filename(); printf("|%s|%s\n",q.c_str(),p.relative_path().c_str()); }
 std::vector<std::string> sm; for(auto&s:all) if(s.size()<=4) sm.push_back(s);
 for(auto&x:sm) for(auto&y:sm){ fs::path a(x),b(y); int c=a.compare(b); printf("%s %s %d %s %s\n",x.c_str(),y.c_str(),(c>0)-(c<0),(a/b).c_str(),a.lexically_relative(b).c_str()); }
}
