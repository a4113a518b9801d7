id='c16-negative-timeout'; prop='C16'
needs='a webhook marker with a negative timeout'
breaks='timeouts below one second are written'
edits=[('pkg/webhook/parser.go','''	if timeoutSeconds != nil && (*timeoutSeconds < 1 || *timeoutSeconds > 30) {
''','''	if timeoutSeconds != nil && *timeoutSeconds > 30 {
''')]
pkg='pkg/webhook'
lib=open('/verif/tools/seeds/lib_ctx.txt').read()
test=lib%('webhook','')+'''
func TestSeededDemo(t *testing.T) {
	for _, mutating := range []string{"true", "false"} {
		ctx, _ := demoCtx(t, Generator{}, map[string]string{"a.go": "// +kubebuilder:webhook:verbs=create,path=/p,mutating=" + mutating + ",failurePolicy=fail,groups=g,resources=r,versions=v1,name=x.example.com,sideEffects=None,admissionReviewVersions=v1,timeoutSeconds=-5\\n\\npackage demo\\n"})
		if err := (Generator{}).Generate(ctx); err == nil {
			t.Fatal("accepted")
		}
	}
}
'''
