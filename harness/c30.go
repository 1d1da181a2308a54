package main

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"go.dedis.ch/kyber/v3/pairing/bn256"
)

// C30: the program kzg_setup, run on a terminal of its own in a directory of its own

// ProgCase is one run of the program
type ProgCase struct {
	Short []B    `json:"short,omitempty"` // lines which are too short
	Seed  B      `json:"seed"`
	File  string `json:"file"`            // bin, go, none: the default name
	Old   int    `json:"old,omitempty"`   // the file exists already, with so many bytes
	Fault string `json:"fault,omitempty"` // end: the input ends without a seed, notty: input is no terminal, nodir: the file can't be created, full: no room, args: too many arguments
	Pick  int    `json:"pick,omitempty"`
}

func gProgCase(s *Src) ProgCase {
	line := func(n int) B {
		b := make(B, n)
		for i := range b {
			b[i] = "abc XYZ 019 _%\\\"\xc3\xa9\xfe$"[s.N(19)]
		}
		return b
	}
	pc := ProgCase{File: pick(s, []string{"bin", "go", "none"}), Pick: s.N(29)}
	for n := s.N(3); n > 0; n-- {
		pc.Short = append(pc.Short, line(pick(s, []int{0, 1, 10, 18, 19})))
	}
	pc.Seed = line(pick(s, []int{20, 21, 32, 33, 64, 65, 200, s.Range(20, 300)}))
	if s.Pct(30) {
		pc.Old = pick(s, []int{1, 1000, 200000})
	}
	if s.Pct(30) {
		pc.Fault = pick(s, []string{"end", "notty", "nodir", "full", "args"})
	}
	return pc
}

// openPty gives a new terminal
func openPty() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var unlock, n int32
	for _, c := range []struct {
		req uintptr
		arg *int32
	}{{syscall.TIOCSPTLCK, &unlock}, {syscall.TIOCGPTN, &n}} {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), c.req, uintptr(unsafe.Pointer(c.arg))); e != 0 {
			master.Close()
			return nil, nil, e
		}
	}
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		master.Close()
	}
	return master, slave, err
}

func runC30(pc *ProgCase, st *Stats) error {
	prog := os.Getenv("KZG_SETUP_PROGRAM")
	if prog == "" {
		return errf("KZG_SETUP_PROGRAM is not set")
	}
	dir, err := os.MkdirTemp("", "verif-c30-")
	must(err)
	defer os.RemoveAll(dir)
	name := map[string]string{"bin": "x.bin", "go": "x.go", "none": "examples.setup"}[pc.File]
	var args []string
	if pc.File != "none" {
		args = []string{name}
	}
	path := filepath.Join(dir, name)
	switch pc.Fault {
	case "nodir":
		name = "no/" + map[string]string{"bin": "x.bin", "go": "x.go", "none": "x"}[pc.File]
		args = []string{name}
		path = filepath.Join(dir, name)
	case "full":
		must(os.Symlink("/dev/full", path))
	case "args":
		args = []string{name, "y"}
	default:
		if pc.Old > 0 {
			must(os.WriteFile(path, bytes.Repeat([]byte{'a'}, pc.Old), 0600))
		}
	}
	cmd := exec.Command(prog, args...)
	cmd.Dir = dir
	var sb strings.Builder
	out := &limitedWriter{b: &sb}
	cmd.Stdout, cmd.Stderr = out, out
	var hangUp func()
	if pc.Fault == "notty" {
		in := string(pc.Seed) + "\n"
		cmd.Stdin = strings.NewReader(in)
	} else {
		master, slave, err := openPty()
		if err != nil {
			st.Label("no terminal can be made")
			return nil
		}
		defer master.Close()
		defer slave.Close()
		cmd.Stdin = slave
		for _, l := range pc.Short {
			_, err = master.Write(append(append([]byte{}, l...), '\n'))
			must(err)
		}
		if pc.Fault == "end" {
			hangUp = func() { master.Close() }
		} else {
			_, err = master.Write(append(append([]byte{}, pc.Seed...), '\n'))
			must(err)
		}
	}
	must(cmd.Start())
	if hangUp != nil {
		time.Sleep(time.Duration(pc.Pick) * time.Millisecond)
		hangUp()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		_ = cmd.Process.Kill()
		<-done
		return errf("the program does not end (fault %q, %d short lines); it wrote %s", pc.Fault, len(pc.Short), clip(sb.String(), 300))
	}
	st.Label("file:" + pc.File)
	st.NonTrivial(true)
	res := strings.ToLower(sb.String())
	if pc.Fault != "" {
		st.Label("fault:" + pc.Fault)
		if strings.Contains(res, "success") {
			return errf("the program reports success (fault %s): %s", pc.Fault, clip(sb.String(), 300))
		}
		if pc.Fault == "args" {
			if _, err := os.Stat(path); err == nil {
				return errf("too many arguments, but a file was written")
			}
			return nil
		}
		if err == nil {
			return errf("the program ends without an error (fault %s): %s", pc.Fault, clip(sb.String(), 300))
		}
		if fi, err := os.Stat(path); err == nil && pc.Fault != "full" && fi.Size() != int64(pc.Old) {
			return errf("the program changed the file without a seed (fault %s)", pc.Fault)
		}
		return nil
	}
	if err != nil {
		return errf("the program fails: %v: %s", err, clip(sb.String(), 300))
	}
	if n := strings.Count(res, "too short"); n != len(pc.Short) {
		return errf("%d too short seeds were given, the program complains %d times: %s", len(pc.Short), n, clip(sb.String(), 300))
	}
	for _, l := range append(append([]B{}, pc.Short...), pc.Seed) {
		if len(l) > 9 && strings.Contains(sb.String(), string(l)) {
			return errf("the program shows the seed")
		}
	}
	var data []byte
	if pc.File == "go" {
		must(os.WriteFile(filepath.Join(dir, "m.go"), []byte("package main\n\nimport \"os\"\n\nfunc main() { os.Stdout.Write(GetTrustedSetupBin()) }\n"), 0600))
		run := exec.Command("go", "run", "x.go", "m.go")
		run.Dir = dir
		run.Env = append(os.Environ(), "GO111MODULE=off")
		var eb bytes.Buffer
		run.Stderr = &eb
		if data, err = run.Output(); err != nil {
			return errf("the generated Go file can't be used: %v: %s", err, clip(eb.String(), 300))
		}
	} else {
		if !strings.Contains(res, "success") {
			return errf("the program does not report success: %s", clip(sb.String(), 300))
		}
		data, err = os.ReadFile(path)
		if err != nil {
			return errf("no file: %v", err)
		}
	}
	suite := bn256.NewSuite()
	ts, err := trie_kzg_bn256.TrustedSetupFromBytes(suite, data)
	if err != nil {
		return errf("the setup can't be read: %v", err)
	}
	if !bytes.Equal(ts.Bytes(), data) {
		return errf("re-serialisation of the setup differs from the file")
	}
	// the secret: a repeated hash of the seed
	dom0 := big.NewInt(1)
	h := blake(pc.Seed, 32)
	var secret *big.Int
	s2 := suite.G2().Point().Add(ts.Diff2[0], suite.G2().Point().Mul(suite.G2().Scalar().SetBytes(dom0.Bytes()), nil))
	n := 0
	for ; n < 400; n++ {
		x := new(big.Int).Mod(new(big.Int).SetBytes(h), bigOrder)
		if suite.G2().Point().Mul(suite.G2().Scalar().SetBytes(x.Bytes()), nil).Equal(s2) {
			secret = x
			break
		}
		h = blake(h, 32)
	}
	if secret == nil {
		return errf("the secret of the setup is no repeated hash of the seed")
	}
	st.Label(fmt.Sprintf("hashed:%d0-%d9", n/10, n/10))
	omega := bigOf(ts.Omega)
	if omega.Sign() == 0 || ts.D != 258 {
		return errf("the setup has dimension %d and omega %x", ts.D, omega)
	}
	if err := checkSetupShape(ts, 258, omega); err != nil {
		return err
	}
	seen := map[string]bool{}
	for _, x := range refDomain(258, omega) {
		seen[x.String()] = true
	}
	if len(seen) != 258 {
		return errf("domain elements coincide")
	}
	idx := []int{0, 1, 255, 256, 257}
	for i := pc.Pick % 3; i < 258; i += 3 {
		idx = append(idx, i)
	}
	return checkSetupSecret(ts, secret, omega, idx)
}

func init() {
	register("C30", checkOpt{Quick: 40, Thor: 1200,
		Rule:   "cases are runs of the program on a terminal and in a directory of their own: up to two too short lines, a seed of 20 to 300 bytes, a binary file, a Go file or the default one, over an existing shorter or longer file, and faults (input ends, no terminal, no directory, no room, too many arguments). The written setup (of the Go file: what it gives when compiled) must read back, re-serialise to the same bytes, have 258 different domain elements and at a third of the indices the points of a secret which is a repeated hash of the seed; short seeds are asked again, the seed is not shown, a fault ends the program with an error and without success. Non-trivial: every run.",
		Assume: []string{"pseudo terminals can be made"}},
		gProgCase, runC30,
		ProgCase{Short: []B{B("1234567890123456789"), B("")}, Seed: B("12345678901234567890"), File: "bin", Old: 200000},
		ProgCase{Seed: B("a long enough seed with %d and %s"), File: "go", Old: 200000},
		ProgCase{Seed: B("a long enough seed in the default file"), File: "none"},
		ProgCase{Seed: B("a long enough seed without terminal"), File: "bin", Fault: "notty"},
		ProgCase{Short: []B{B("x")}, File: "bin", Fault: "end"},
		ProgCase{Seed: B("a long enough seed and no room"), File: "go", Fault: "full"},
		ProgCase{Seed: B("a long enough seed and no room"), File: "bin", Fault: "full"},
		ProgCase{Seed: B("a long enough seed, no directory"), File: "go", Fault: "nodir"},
		ProgCase{Seed: B("a long enough seed, too many arguments"), File: "bin", Fault: "args"})
}
