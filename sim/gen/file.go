package gen

// FileName is the name that a source has in most runs its own, and in others one of another form
func FileName(r *Rand, s string) string {
	if !r.P(4) {
		return s
	}
	switch r.Intn(8) {
	case 0:
		return r.Pick("", "x", ".", "site.pp", "manifests/init.pp", "../x.pp", "a/./b/../c.pp")
	case 1:
		return r.Pick("C:\\modules\\a\\init.pp", "\\\\host\\share\\x.pp", "c:/a.pp")
	case 2:
		return r.Pick("/etc/puppetlabs/code/environments/production/modules/a/manifests/init.pp", "/etc/puppetlabs/code/environments/production/manifests/site.pp", "/root/x.pp", "/tmp/a b/c.pp")
	case 3:
		return r.Pick("x.epp", "templates/a.epp", "/src/x.epp", "a.epp.txt", "x.yaml", "plans/a.pp", "/src/types/b.pp", "functions/c.pp", "workflows/d.ph")
	case 4:
		return r.Pick("%s%d.pp", "a\nb.pp", "a'b\".pp", "{x}", "å.pp", "\xff\xfe", "a\\b", "http://x/y.pp", "-", "<stdin>", "x.pp:12:3")
	case 5:
		s = "/very"
		for n := 5 + r.Intn(60); n > 0; n-- {
			s += "/long"
		}
		return s + "/x.pp"
	default:
		return r.Pick("/src/a.pp", "/src/b.pp", "/srv/a.pp", "//src/a.pp", "/src/sub/a.pp")
	}
}
