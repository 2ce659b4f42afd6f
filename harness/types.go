package main

// The vocabulary shared with spec/Sink.tla: configurations, zones, files and
// the steps of a scenario.

// Cfg is the command line.
type Cfg struct {
	StdRules   bool     `json:"stdrules"`
	RejectMsgs bool     `json:"rejectmsgs"`
	FromReject string   `json:"fromreject"`
	ToAccept   string   `json:"toaccept"`
	HeloReject string   `json:"heloreject"`
	RFiles     []string `json:"rfiles"`
	SmtpLog    bool     `json:"smtplog"`
	Log        bool     `json:"log"`
	DnLog      bool     `json:"dnlog"`
	DnCount    int      `json:"dncount"`
	DnDur      int      `json:"dndur"`
	MinPhase   string   `json:"minphase"`
	SaveDir    string   `json:"savedir"`
	Hash       string   `json:"hash"`
	Helo       string   `json:"helo"`
	Cert       string   `json:"cert"`
	Key        string   `json:"key"`
	ConnCfg    string   `json:"conncfg"`
	Slow       bool     `json:"slow"`
	Force      bool     `json:"force"`
	Dirs       []string `json:"dirs"`
	PerIP      bool     `json:"perip"`
	More       int      `json:"more"`              // how many further addresses to listen on
	Listen     string   `json:"listen"`            // why it cannot listen: "", none, twice, port, foreign
	LogBad     string   `json:"logbad"`            // the log that cannot be opened: "", l, smtplog, dnlog
	StdLog     string   `json:"stdlog,omitempty"`  // the log that goes to standard output
	DurText    string   `json:"durtext,omitempty"` // how to write DnDur if not in seconds
}

func baseCfg() Cfg {
	return Cfg{StdRules: true, SmtpLog: true, Log: true, DnDur: 28800, MinPhase: "helo",
		SaveDir: "spool", Hash: "all", Dirs: []string{"spool"}, RFiles: []string{}}
}

// FileEnt is a file that exists.
type FileEnt struct {
	N string `json:"n"`
	T string `json:"t"`
}

// MX is one MX record.
type MX struct {
	Pref int    `json:"pref"`
	Host string `json:"host"`
}

// NameEnt is what the DNS has for one name.
type NameEnt struct {
	N    string   `json:"n"`
	St   string   `json:"st"`
	A    []string `json:"a"`
	MxSt string   `json:"mxst"`
	Mx   []MX     `json:"mx"`
	Txt  []string `json:"txt"`
}

// PtrEnt is the names of one address.
type PtrEnt struct {
	N     string   `json:"n"`
	Names []string `json:"names"`
}

// Zone is all that the DNS knows.
type Zone struct {
	Names []NameEnt `json:"names"`
	Ptr   []PtrEnt  `json:"ptr"`
}

// Step is one input of a scenario.
type Step struct {
	Ev      string   `json:"ev"`
	C       string   `json:"c,omitempty"`
	Verb    string   `json:"verb,omitempty"`
	Arg     string   `json:"arg,omitempty"`
	Garbled bool     `json:"garbled,omitempty"`
	Line    string   `json:"line,omitempty"` // the line to send, when not the canonical one
	Works   bool     `json:"works,omitempty"`
	Sni     string   `json:"sni,omitempty"`
	CCert   string   `json:"ccert,omitempty"` // client certificate, one of clientCerts
	TLSVer  string   `json:"tlsver,omitempty"`
	Path    string   `json:"path,omitempty"`
	Text    string   `json:"text,omitempty"`
	Gone    bool     `json:"gone,omitempty"`
	Zone    *Zone    `json:"zone,omitempty"`
	Now     int      `json:"now,omitempty"`
	Dir     string   `json:"dir,omitempty"`
	Rip     string   `json:"rip,omitempty"`
	Lip     string   `json:"lip,omitempty"`
	Rport   int      `json:"rport,omitempty"`
	Lport   int      `json:"lport,omitempty"`
	Via     int      `json:"via,omitempty"`  // which of the listening addresses to connect to
	Body    []string `json:"body,omitempty"` // the lines of a message
	Fault   string   `json:"fault,omitempty"`
	FaultN  int      `json:"faultn,omitempty"`
	FErr    string   `json:"ferr,omitempty"`
	Junk    string   `json:"junk,omitempty"` // for msg: foreign file contents (plant)
	// par: sessions run at the same time, each a list of steps.
	Par [][]Step `json:"par,omitempty"`
	Yld int      `json:"yld,omitempty"`
}

// Scenario is a whole test case.
type Scenario struct {
	ID    string    `json:"id"`
	Cfg   Cfg       `json:"cfg"`
	Files []FileEnt `json:"files"`
	Zone  Zone      `json:"zone"`
	Steps []Step    `json:"steps"`
	Procs int       `json:"procs,omitempty"` // GOMAXPROCS
	// NoStats: do not ask for the counters at the end.
	NoStats bool `json:"nostats,omitempty"`
}

// Obj is a JSON object.
type Obj map[string]interface{}

// Recorded is a scenario with its observations, as Trace.tla reads it.
type Recorded struct {
	ID   string    `json:"id"`
	Cfg  Cfg       `json:"cfg"`
	Fs   []FileEnt `json:"fs"`
	Zone Zone      `json:"zone"`
	Evs  []Obj     `json:"evs"`
	Hung bool      `json:"-"`
}
