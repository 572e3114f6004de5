# Connections to the remote (backend/)
#
# A connection is named by the payload of its ssh.Conn. State as this goroutine
# sees it: 1 it holds the connection, 2 it gave it to the pool, 3 it closed it.
# Sending a connection on a channel gives it away, receiving one takes it over,
# and a goroutine started by another holds nothing.
ghost k_own(int) int
ghost k_dead(int) bool
ghost k_open(int) int
ghost k_fread(int) bool
ghost k_rd_file(int) int
ghost k_rd_err(int) bool
ghost k_bl_path(int) seq
ghost k_bl_err(int) bool
ghost k_bl_base(int) int
ghost k_bl_len(int) int
ghost k_bs_path(int) seq
ghost k_bs_tag(int) int
ghost k_bs_pay(int) int
ghost k_bs_err(int) bool
ghost k_dialn(int) int
ghost k_dial_addr(int) seq
ghost k_dial_net(int) seq
ghost k_dial_cfg(int) int

# the ssh connection an sftp client or an open file talks through
uf sshof(int) int
uf clientof(int) int
# path and content of an open file
uf fpath(int) seq
uf fdat(int) seq

define heldc(x) = @k_own(x) == 1
define okconn(v) = v != nil && v.sshConn != nil && v.sftpConn != nil && v.sshConn.Conn != nil && pay(v.sshConn.Conn) != 0 && sshof(v.sftpConn) == pay(v.sshConn.Conn)

message[C17,C07,C01,C11,C12,C18,C21] *backend.conn "a complete connection" okconn(v)
onsend[C17] *backend.conn "only a connection this request holds goes to the pool" heldc(pay(v.sshConn.Conn))
onsend[C17] *backend.conn "no connection that failed its liveness probe goes to the pool" !@k_dead(pay(v.sshConn.Conn))
onclose[C07] *backend.conn "the pool stays open while requests may return connections" false
sendset *backend.conn @k_own(pay(v.sshConn.Conn)) == 2
sendset *backend.conn @k_open(0) == @k_open(0) - 1
recvset *backend.conn @k_dead(pay(v.sshConn.Conn)) == false
recvset *backend.conn @k_own(pay(v.sshConn.Conn)) == 1
recvset *backend.conn @k_open(0) == @k_open(0) + 1

extern golang.org/x/crypto/ssh.Dial | network addr config -> r err
  modifies nothing
  ensures err == nil ==> r != nil && fresh(r) && r.Conn != nil && pay(r.Conn) != 0
  ensures err != nil ==> r == nil
  set @k_own(if err == nil then pay(r.Conn) else 0) == (if err == nil then 1 else 0)
  set @k_dead(if err == nil then pay(r.Conn) else 0) == false
  set @k_open(0) == @k_open(0) + (if err == nil then 1 else 0)
  set @k_dial_addr(@k_dialn(0)) == addr
  set @k_dial_net(@k_dialn(0)) == network
  set @k_dial_cfg(@k_dialn(0)) == config
  set @k_dialn(0) == @k_dialn(0) + 1

extern golang.org/x/crypto/ssh.Conn.Close | c -> err
  requires[C17] "only a held connection is closed, once" heldc(pay(c))
  modifies nothing
  set @k_own(pay(c)) == 3
  set @k_open(0) == @k_open(0) - 1

extern golang.org/x/crypto/ssh.Conn.SendRequest | c name wantReply payload -> ok reply err
  requires[C17] "only a held connection is used" heldc(pay(c))
  modifies nothing
  set @k_dead(pay(c)) == (@k_dead(pay(c)) || err != nil)

extern github.com/pkg/sftp.NewClient | conn opts -> r err
  requires conn != nil
  requires[C17] "only a held connection is used" heldc(pay(conn.Conn))
  modifies nothing
  ensures err == nil ==> r != nil && fresh(r) && sshof(r) == pay(conn.Conn)
  ensures err != nil ==> r == nil

extern (*github.com/pkg/sftp.clientConn).Close | c -> err
  modifies nothing

extern (*github.com/pkg/sftp.Client).Open | c path -> r err
  requires[C17] "only a held connection is used" heldc(sshof(c))
  modifies nothing
  ensures err == nil ==> r != nil && fresh(r) && clientof(r) == c && fpath(r) == path
  ensures err != nil ==> r == nil
  set @k_fread(r) == false

extern (*github.com/pkg/sftp.Client).OpenFile | c path f -> r err
  requires[C17] "only a held connection is used" heldc(sshof(c))
  requires[C18] "no request that changes the remote" f == 0
  modifies nothing
  ensures err == nil ==> r != nil && fresh(r) && clientof(r) == c && fpath(r) == path
  ensures err != nil ==> r == nil
  set @k_fread(r) == false

extern (*github.com/pkg/sftp.Client).ReadDir | c p -> r err
  requires[C17] "only a held connection is used" heldc(sshof(c))
  modifies nothing
  set @k_bl_path(0) == p
  set @k_bl_err(0) == (err != nil)
  set @k_bl_base(0) == base(r)
  set @k_bl_len(0) == len(r)

extern (*github.com/pkg/sftp.Client).Stat | c p -> r err
  requires[C17] "only a held connection is used" heldc(sshof(c))
  modifies nothing
  set @k_bs_path(0) == p
  set @k_bs_err(0) == (err != nil)
  set @k_bs_tag(0) == tag(r)
  set @k_bs_pay(0) == pay(r)

extern (*github.com/pkg/sftp.File).Close | f -> err
  requires[C17] "only a held connection is used" heldc(sshof(clientof(f)))
  modifies nothing

extern (*github.com/pkg/sftp.File).WriteTo | f w -> n err
  requires[C17] "only a held connection is used" heldc(sshof(clientof(f)))
  modifies obj(as(w, "*bytes.Buffer"))
  ensures err == nil && !old(@k_fread(f)) && is(w, "*bytes.Buffer") ==> (let b = as(w, "*bytes.Buffer"); old(len(b.buf)) == 0 ==> b.off == 0 && bytes(b.buf) == fdat(f))
  set @k_fread(f) == true
  set @k_rd_file(0) == f
  set @k_rd_err(0) == (err != nil)

extern (*github.com/pkg/sftp.Client).Create | c
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.Client).Symlink | c
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.Client).Chtimes | c
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.Client).Chown | c
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.Client).Chmod | c
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.Client).Truncate | c
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.Client).Remove | c
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.Client).RemoveDirectory | c
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.Client).Rename | c
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.Client).PosixRename | c
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.Client).Mkdir | c
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.Client).MkdirAll | c
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.File).Write | f
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.File).ReadFrom | f
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.File).Chown | f
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.File).Chmod | f
  requires[C18] "no request that changes the remote" false

extern (*github.com/pkg/sftp.File).Truncate | f
  requires[C18] "no request that changes the remote" false

define okprov(p) = p != nil && p.p != nil && closed(p.p.conns) == 0

func (*backend.Provider).ReadFile | p path -> r err
  requires okprov(p)
  let n = @k_open(0)
  let d = @k_dialn(0)
  modifies nothing
  nopanic[C07]
  ensures[C17] "the connection was returned or closed" @k_open(0) == n
  ensures[C01] "the remote's whole content of that path" err == nil ==> !@k_rd_err(0) && fpath(@k_rd_file(0)) == path && bytes(r) == fdat(@k_rd_file(0))
  ensures[C21] "only the configured remote is dialled" @k_dialn(0) >= d && (forall i: int {@k_dial_addr(i)} :: d <= i && i < @k_dialn(0) ==> @k_dial_addr(i) == p.p.remoteAddr && @k_dial_cfg(i) == p.p.clientConfig && @k_dial_net(i) == "tcp")
  ensures[C21] "nothing on failure" err != nil ==> r == nil

func (*backend.Provider).ReadDir | p path -> r err
  requires okprov(p)
  let n = @k_open(0)
  let d = @k_dialn(0)
  modifies nothing
  nopanic[C07]
  ensures[C17] "the connection was returned or closed" @k_open(0) == n
  ensures[C11] "the remote's listing of that path" err == nil ==> !@k_bl_err(0) && @k_bl_path(0) == path && base(r) == @k_bl_base(0) && len(r) == @k_bl_len(0)
  ensures[C21] "only the configured remote is dialled" @k_dialn(0) >= d && (forall i: int {@k_dial_addr(i)} :: d <= i && i < @k_dialn(0) ==> @k_dial_addr(i) == p.p.remoteAddr && @k_dial_cfg(i) == p.p.clientConfig && @k_dial_net(i) == "tcp")
  ensures[C21] "nothing on failure" err != nil ==> r == nil

func (*backend.Provider).Stat | p path -> r err
  requires okprov(p)
  let n = @k_open(0)
  let d = @k_dialn(0)
  modifies nothing
  nopanic[C07]
  ensures[C17] "the connection was returned or closed" @k_open(0) == n
  ensures[C12] "the remote's answer for that path" err == nil ==> !@k_bs_err(0) && @k_bs_path(0) == path && tag(r) == @k_bs_tag(0) && pay(r) == @k_bs_pay(0)
  ensures[C21] "only the configured remote is dialled" @k_dialn(0) >= d && (forall i: int {@k_dial_addr(i)} :: d <= i && i < @k_dialn(0) ==> @k_dial_addr(i) == p.p.remoteAddr && @k_dial_cfg(i) == p.p.clientConfig && @k_dial_net(i) == "tcp")


# other ways of reading an open file
extern io.ReadAll | rd -> r err
  requires[C17] "only a held connection is used" is(rd, "*github.com/pkg/sftp.File") ==> heldc(sshof(clientof(as(rd, "*github.com/pkg/sftp.File"))))
  modifies nothing
  ensures err == nil && is(rd, "*github.com/pkg/sftp.File") && !old(@k_fread(as(rd, "*github.com/pkg/sftp.File"))) ==> bytes(r) == fdat(as(rd, "*github.com/pkg/sftp.File"))
  set @k_fread(as(rd, "*github.com/pkg/sftp.File")) == true
  set @k_rd_file(0) == as(rd, "*github.com/pkg/sftp.File")
  set @k_rd_err(0) == (err != nil)

extern io/ioutil.ReadAll | rd -> r err
  requires[C17] "only a held connection is used" is(rd, "*github.com/pkg/sftp.File") ==> heldc(sshof(clientof(as(rd, "*github.com/pkg/sftp.File"))))
  modifies nothing
  ensures err == nil && is(rd, "*github.com/pkg/sftp.File") && !old(@k_fread(as(rd, "*github.com/pkg/sftp.File"))) ==> bytes(r) == fdat(as(rd, "*github.com/pkg/sftp.File"))
  set @k_fread(as(rd, "*github.com/pkg/sftp.File")) == true
  set @k_rd_file(0) == as(rd, "*github.com/pkg/sftp.File")
  set @k_rd_err(0) == (err != nil)

extern io.Copy | w rd -> n err
  requires[C17] "only a held connection is used" is(rd, "*github.com/pkg/sftp.File") ==> heldc(sshof(clientof(as(rd, "*github.com/pkg/sftp.File"))))
  modifies obj(as(w, "*bytes.Buffer"))
  ensures err == nil && is(rd, "*github.com/pkg/sftp.File") && !old(@k_fread(as(rd, "*github.com/pkg/sftp.File"))) && is(w, "*bytes.Buffer") ==> (let b = as(w, "*bytes.Buffer"); old(len(b.buf)) == 0 ==> b.off == 0 && bytes(b.buf) == fdat(as(rd, "*github.com/pkg/sftp.File")))
  set @k_fread(as(rd, "*github.com/pkg/sftp.File")) == true
  set @k_rd_file(0) == as(rd, "*github.com/pkg/sftp.File")
  set @k_rd_err(0) == (err != nil)

extern (*bytes.Buffer).ReadFrom | b rd -> n err
  requires[C17] "only a held connection is used" is(rd, "*github.com/pkg/sftp.File") ==> heldc(sshof(clientof(as(rd, "*github.com/pkg/sftp.File"))))
  modifies obj(b)
  ensures err == nil && is(rd, "*github.com/pkg/sftp.File") && !old(@k_fread(as(rd, "*github.com/pkg/sftp.File"))) ==> (old(len(b.buf)) == 0 ==> b.off == 0 && bytes(b.buf) == fdat(as(rd, "*github.com/pkg/sftp.File")))
  set @k_fread(as(rd, "*github.com/pkg/sftp.File")) == true
  set @k_rd_file(0) == as(rd, "*github.com/pkg/sftp.File")
  set @k_rd_err(0) == (err != nil)

property C18 (*backend.Provider).ReadFile ; (*backend.Provider).ReadDir ; (*backend.Provider).Stat
