// A second translation unit with every public header: the library must link
// with several users in each configuration.
#ifdef BOOST_URL_STANDALONE
#include <string_view>
#include <optional>
#include <system_error>
#include <cassert>
#endif
#include <boost/url.hpp>
#include <boost/url/scheme.hpp>
#include <boost/url/static_pool.hpp>
#include <boost/url/error.hpp>
namespace urls=boost::urls;
unsigned long other_unit(char const* p,std::size_t n){
    unsigned long x=0;
    try {
        urls::url u(urls::string_view(p,n)); urls::url_view v(u.encoded_url());
        u.set_host("h"); u.set_encoded_query("a=1&b"); u.segments().insert(u.segments().begin(),"x"); u.normalize();
        for(auto const& s: v.segments()) x+=s.encoded_string().size();
        for(auto it=u.params().begin();it!=u.params().end();++it) x+=it->encoded_key().size();
        x+=u.size()+v.size()+u.params().count("a")+v.params().count("a");
        urls::static_pool<64> pool; urls::basic_url<urls::basic_static_pool::allocator_type<char>> w(pool.allocator()); x+=w.size();
        x+=unsigned(urls::string_to_scheme("http"))+urls::to_string(urls::scheme::ws).size();
        x+=urls::error_code(urls::error::syntax).message().size()+(urls::error_code(urls::error::syntax)==urls::condition::parse_error);
    } catch(std::exception const& e){ x+=*e.what(); }
    return x; }
