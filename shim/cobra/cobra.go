// Package cobra is an offline stand-in for the small part of
// github.com/spf13/cobra that aodinokov/metac's command line uses.
package cobra

import (
	"context"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
)

// PositionalArgs validates positional arguments.
type PositionalArgs func(cmd *Command, args []string) error

// Command mirrors cobra.Command.
type Command struct {
	Use, Short, Long, Example, Version string
	Aliases                            []string
	Hidden                             bool
	Args                               PositionalArgs
	SilenceUsage, SilenceErrors        bool
	Run                                func(cmd *Command, args []string)
	RunE                               func(cmd *Command, args []string) error
	PreRun                             func(cmd *Command, args []string)
	PreRunE                            func(cmd *Command, args []string) error
	PostRun                            func(cmd *Command, args []string)
	PostRunE                           func(cmd *Command, args []string) error

	flags *FlagSet
	sub   []*Command
	args  []string
	set   bool
	out   io.Writer
	ctx   context.Context
}

// FlagSet is a pflag-like flag set.
type FlagSet struct {
	byLong, byShort map[string]*Flag
}

// Flag is one flag.
type Flag struct {
	Name, Shorthand, Usage string
	isBool                 bool
	Changed                bool
	setFn                  func(string) error
}

func newFlagSet() *FlagSet {
	return &FlagSet{byLong: map[string]*Flag{}, byShort: map[string]*Flag{}}
}

func (f *FlagSet) add(name, short, usage string, isBool bool, set func(string) error) {
	fl := &Flag{Name: name, Shorthand: short, Usage: usage, isBool: isBool, setFn: set}
	f.byLong[name] = fl
	if short != "" {
		f.byShort[short] = fl
	}
}

// StringVarP registers a string flag.
func (f *FlagSet) StringVarP(p *string, name, short, def, usage string) {
	*p = def
	f.add(name, short, usage, false, func(s string) error { *p = s; return nil })
}

// StringVar registers a string flag.
func (f *FlagSet) StringVar(p *string, name, def, usage string) { f.StringVarP(p, name, "", def, usage) }

// StringArrayVarP registers a repeatable flag, one value per use.
func (f *FlagSet) StringArrayVarP(p *[]string, name, short string, def []string, usage string) {
	*p = def
	changed := false
	f.add(name, short, usage, false, func(s string) error {
		if !changed {
			*p = []string{}
			changed = true
		}
		*p = append(*p, s)
		return nil
	})
}

// StringArrayVar registers a repeatable flag.
func (f *FlagSet) StringArrayVar(p *[]string, name string, def []string, usage string) {
	f.StringArrayVarP(p, name, "", def, usage)
}

// StringSliceVarP registers a repeatable comma separated flag.
func (f *FlagSet) StringSliceVarP(p *[]string, name, short string, def []string, usage string) {
	*p = def
	changed := false
	f.add(name, short, usage, false, func(s string) error {
		if !changed {
			*p = []string{}
			changed = true
		}
		*p = append(*p, strings.Split(s, ",")...)
		return nil
	})
}

// BoolVarP registers a boolean flag.
func (f *FlagSet) BoolVarP(p *bool, name, short string, def bool, usage string) {
	*p = def
	f.add(name, short, usage, true, func(s string) error {
		v, err := strconv.ParseBool(s)
		*p = v
		return err
	})
}

// BoolVar registers a boolean flag.
func (f *FlagSet) BoolVar(p *bool, name string, def bool, usage string) {
	f.BoolVarP(p, name, "", def, usage)
}

// IntVarP registers an int flag.
func (f *FlagSet) IntVarP(p *int, name, short string, def int, usage string) {
	*p = def
	f.add(name, short, usage, false, func(s string) error {
		v, err := strconv.Atoi(s)
		*p = v
		return err
	})
}

// Changed tells whether the flag was given.
func (f *FlagSet) Changed(name string) bool {
	fl, ok := f.byLong[name]
	return ok && fl.Changed
}

func (f *FlagSet) parse(in []string) ([]string, error) {
	var pos []string
	for i := 0; i < len(in); i++ {
		a := in[i]
		if a == "--" {
			pos = append(pos, in[i+1:]...)
			break
		}
		if strings.HasPrefix(a, "--") {
			name, val, hasVal := strings.Cut(a[2:], "=")
			fl, ok := f.byLong[name]
			if !ok {
				return nil, fmt.Errorf("unknown flag: --%s", name)
			}
			if !hasVal {
				if fl.isBool {
					val = "true"
				} else {
					if i+1 >= len(in) {
						return nil, fmt.Errorf("flag needs an argument: --%s", name)
					}
					i++
					val = in[i]
				}
			}
			fl.Changed = true
			if err := fl.setFn(val); err != nil {
				return nil, err
			}
			continue
		}
		if len(a) > 1 && a[0] == '-' {
			short := a[1:2]
			rest := a[2:]
			fl, ok := f.byShort[short]
			if !ok {
				return nil, fmt.Errorf("unknown shorthand flag: %q in %s", short, a)
			}
			val := ""
			switch {
			case fl.isBool && rest == "":
				val = "true"
			case rest != "":
				val = strings.TrimPrefix(rest, "=")
			default:
				if i+1 >= len(in) {
					return nil, fmt.Errorf("flag needs an argument: %q in %s", short, a)
				}
				i++
				val = in[i]
			}
			fl.Changed = true
			if err := fl.setFn(val); err != nil {
				return nil, err
			}
			continue
		}
		pos = append(pos, a)
	}
	return pos, nil
}

// Flags returns the flag set.
func (c *Command) Flags() *FlagSet {
	if c.flags == nil {
		c.flags = newFlagSet()
	}
	return c.flags
}

// PersistentFlags returns the flag set.
func (c *Command) PersistentFlags() *FlagSet { return c.Flags() }

// SetArgs overrides os.Args.
func (c *Command) SetArgs(a []string) { c.args = a; c.set = true }

// AddCommand registers subcommands.
func (c *Command) AddCommand(cmds ...*Command) { c.sub = append(c.sub, cmds...) }

// SetOut sets the output writer.
func (c *Command) SetOut(w io.Writer) { c.out = w }

// SetErr is accepted and ignored.
func (c *Command) SetErr(io.Writer) {}

// OutOrStdout returns the output writer.
func (c *Command) OutOrStdout() io.Writer {
	if c.out != nil {
		return c.out
	}
	return os.Stdout
}

// ErrOrStderr returns stderr.
func (c *Command) ErrOrStderr() io.Writer { return os.Stderr }

// Println prints to the output.
func (c *Command) Println(i ...interface{}) { fmt.Fprintln(c.OutOrStdout(), i...) }

// Printf prints to the output.
func (c *Command) Printf(f string, i ...interface{}) { fmt.Fprintf(c.OutOrStdout(), f, i...) }

// Context returns the context.
func (c *Command) Context() context.Context {
	if c.ctx == nil {
		return context.Background()
	}
	return c.ctx
}

// Name is the first word of Use.
func (c *Command) Name() string { n, _, _ := strings.Cut(c.Use, " "); return n }

// ExecuteContext runs the command.
func (c *Command) ExecuteContext(ctx context.Context) error { c.ctx = ctx; return c.Execute() }

// Execute parses the arguments and runs the command.
func (c *Command) Execute() error {
	in := os.Args[1:]
	if c.set {
		in = c.args
	}
	if len(in) > 0 {
		for _, s := range c.sub {
			if s.Name() == in[0] {
				s.SetArgs(in[1:])
				return s.Execute()
			}
		}
	}
	args, err := c.Flags().parse(in)
	if err == nil && c.Args != nil {
		err = c.Args(c, args)
	}
	if err == nil && c.PreRunE != nil {
		err = c.PreRunE(c, args)
	} else if err == nil && c.PreRun != nil {
		c.PreRun(c, args)
	}
	if err == nil && c.RunE != nil {
		err = c.RunE(c, args)
	} else if err == nil && c.Run != nil {
		c.Run(c, args)
	}
	if err == nil && c.PostRunE != nil {
		err = c.PostRunE(c, args)
	} else if err == nil && c.PostRun != nil {
		c.PostRun(c, args)
	}
	if err != nil && !c.SilenceErrors {
		fmt.Fprintln(os.Stderr, "Error:", err.Error())
	}
	return err
}

// NoArgs, ArbitraryArgs and friends.
func NoArgs(_ *Command, a []string) error {
	if len(a) > 0 {
		return fmt.Errorf("unexpected arguments")
	}
	return nil
}

// ArbitraryArgs accepts anything.
func ArbitraryArgs(*Command, []string) error { return nil }

// MinimumNArgs wants at least n.
func MinimumNArgs(n int) PositionalArgs {
	return func(_ *Command, a []string) error {
		if len(a) < n {
			return fmt.Errorf("requires at least %d arg(s), only received %d", n, len(a))
		}
		return nil
	}
}

// MaximumNArgs wants at most n.
func MaximumNArgs(n int) PositionalArgs {
	return func(_ *Command, a []string) error {
		if len(a) > n {
			return fmt.Errorf("accepts at most %d arg(s), received %d", n, len(a))
		}
		return nil
	}
}

// ExactArgs wants exactly n.
func ExactArgs(n int) PositionalArgs {
	return func(_ *Command, a []string) error {
		if len(a) != n {
			return fmt.Errorf("accepts %d arg(s), received %d", n, len(a))
		}
		return nil
	}
}

// CheckErr exits on error.
func CheckErr(err interface{}) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "Error:", err)
		os.Exit(1)
	}
}
