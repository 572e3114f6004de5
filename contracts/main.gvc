# Start-up and the accept loop (main.go)

uf hostkeyok(int, seq, int, int) bool
ghost k_kh_fn(int) int
ghost k_kh_path(int) seq
ghost k_kh_n(int) int
ghost k_kh_ok(int) bool
ghost k_ak_n(int) int
ghost k_ak_key(int) int
ghost k_sk_pay(int) int
ghost k_sk_path(int) seq
ghost k_sk_ok(int) bool
ghost k_in_tag(int) int
ghost k_in_pay(int) int
ghost k_in_root(int) seq
ghost k_in_pw(int) seq
ghost k_in_ok(int) bool

extern golang.org/x/crypto/ssh/knownhosts.New | files -> f err
  modifies nothing
  ensures err == nil ==> f != nil
  set @k_kh_fn(0) == f
  set @k_kh_n(0) == len(files)
  set @k_kh_path(0) == files[0]
  set @k_kh_ok(0) == (err == nil)
extern golang.org/x/crypto/ssh.PublicKeys | ks -> a
  modifies nothing
  ensures a != nil
  set @k_ak_n(pay(a)) == len(ks)
  set @k_ak_key(pay(a)) == pay(ks[0])
extern (*golang.org/x/crypto/ssh.ServerConfig).AddHostKey | c k
  modifies nothing
extern flag.BoolVar | p name v usage
  modifies obj(p)
extern flag.StringVar | p name v usage
  modifies obj(p)
extern flag.Parse
  modifies nothing
extern net.Listener.Addr | l -> a
  modifies nothing
extern net.Listen | n a -> l err
  modifies nothing
  ensures err == nil ==> l != nil && pay(l) != 0

# Requests of a logged-in client go to the decrypting handlers over the tree
# that Init opened.
ghost k_in_ft(int) int
extern github.com/pkg/sftp.NewRequestServer | rwc h opts -> s
  requires[C18] "reads go to the decrypted view" is(h.FileGet, "*handlers.decrypt") && as(h.FileGet, "*handlers.decrypt").ft == @k_in_ft(0)
  requires[C18] "writes go to the handler that refuses them" is(h.FilePut, "*handlers.decrypt")
  requires[C18] "commands go to the handler that refuses them" is(h.FileCmd, "*handlers.decrypt")
  requires[C18] "listings come from the decrypted view" is(h.FileList, "*handlers.decrypt") && as(h.FileList, "*handlers.decrypt").ft == @k_in_ft(0)
  requires[C18] "the volume was opened" @k_in_ok(0)
  modifies nothing
  ensures s != nil
  nopanic
extern (*github.com/pkg/sftp.RequestServer).Serve | s -> err
  modifies nothing
  nopanic
extern (*github.com/pkg/sftp.RequestServer).Close | s -> err
  modifies nothing
  nopanic

message[C07] *golang.org/x/crypto/ssh.Request "the ssh package delivers real requests" v != nil
message[C07] golang.org/x/crypto/ssh.NewChannel "the ssh package delivers real channels" v != nil

func main.handleChannel | nc h logger
  requires nc != nil && logger != nil && nolocks()
  modifies anything
  nopanic[C07]
func main.handleChannels | chans h logger
  requires logger != nil && nolocks()
  modifies anything
  nopanic[C07]
property C07 main.handleChannel ; main.handleChannels

func main.main
  requires nolocks()
  modifies anything
  opt noreturn
  opt reaches golang.org/x/crypto/ssh.NewServerConn net.Listener.Accept github.com/pkg/sftp.NewRequestServer
  inline main.handleChannel, main.handleChannels
property C07 main.main
property C20 main.main
property C21 main.main
property C18 main.main
