From d698da413daa7b8fbbaeb92f4a75d4ab605ddef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 01/41] fix: print results literally and report failed writes
 to standard output

---
 template/template_handler.go | 5 ++---
 template/template_process.go | 7 +++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 44e1b68..3544dba 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -70,10 +70,9 @@ func (t *Template) processTemplate(template, sourceFolder, targetFolder string,
 
 		// Avoid adding an extra blank line if the result already ends with a newline
 		if !strings.HasSuffix(result, "\n") {
-			Println(result)
-		} else {
-			Print(result)
+			result += "\n"
 		}
+		_, err = fmt.Fprint(color.Output, result)
 		return
 	}
 	resultFile = template
diff --git a/template/template_process.go b/template/template_process.go
index 3f60442..c382e6a 100644
--- a/template/template_process.go
+++ b/template/template_process.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 
 	"github.com/coveooss/gotemplate/v3/utils"
+	"github.com/fatih/color"
 	"golang.org/x/term"
 )
 
@@ -77,9 +78,11 @@ func (t *Template) printResult(source, target, result string, changed bool) (err
 	} else {
 		InternalLog.Info(target)
 	}
-	Print(result)
 	if result != "" && term.IsTerminal(int(os.Stdout.Fd())) {
-		Println()
+		result += "\n"
+	}
+	if _, errPrint := fmt.Fprint(color.Output, result); errPrint != nil {
+		err = errPrint
 	}
 
 	return
-- 
2.43.0


From 5a17cb728a466467bbc73c35fb899cab7a61f761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:12 +0000
Subject: [PATCH 02/41] fix: print terraform results through a temporary folder
 instead of panicking

---
 template/template_process.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/template/template_process.go b/template/template_process.go
index c382e6a..9c82ec8 100644
--- a/template/template_process.go
+++ b/template/template_process.go
@@ -54,14 +54,21 @@ func (t *Template) ProcessTemplates(sourceFolder, targetFolder string, templates
 func (t *Template) printResult(source, target, result string, changed bool) (err error) {
 	if utils.IsTerraformFile(target) {
 		base := filepath.Base(target)
-		tempFolder := must(os.CreateTemp(t.tempFolder, base)).(string)
+		var tempFolder string
+		if tempFolder, err = os.MkdirTemp(t.tempFolder, base); err != nil {
+			return
+		}
+		defer os.RemoveAll(tempFolder)
 		tempFile := filepath.Join(tempFolder, base)
 		err = os.WriteFile(tempFile, []byte(result), 0644)
 		if err != nil {
 			return
 		}
 		err = utils.TerraformFormat(tempFile)
-		bytes := must(os.ReadFile(tempFile)).([]byte)
+		bytes, errRead := os.ReadFile(tempFile)
+		if errRead != nil {
+			return errRead
+		}
 		result = string(bytes)
 	}
 
-- 
2.43.0


From 2c898e430c9816462b949fa4ba9f68723f6fed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:14 +0000
Subject: [PATCH 03/41] fix: a failing file operation on one template does not
 abort the whole batch

---
 template/template_handler.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 3544dba..6276ab6 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -107,14 +107,22 @@ func (t *Template) processTemplate(template, sourceFolder, targetFolder string,
 		return
 	}
 
-	mode := must(os.Stat(template)).(os.FileInfo).Mode()
+	info, err := os.Stat(template)
+	if err != nil {
+		return
+	}
+	mode := info.Mode()
 
 	if sourceFolder != targetFolder {
-		must(os.MkdirAll(filepath.Dir(resultFile), 0777))
+		if err = os.MkdirAll(filepath.Dir(resultFile), 0777); err != nil {
+			return
+		}
 	} else if !isTemplate && !t.options[Overwrite] {
 		newName := template + ".original"
 		InternalLog.Infof("%s => %s", utils.Relative(t.folder, template), utils.Relative(t.folder, newName))
-		must(os.Rename(template, template+".original"))
+		if err = os.Rename(template, newName); err != nil {
+			return
+		}
 	}
 	InternalLog.Infoln("Writing file", utils.Relative(t.folder, resultFile))
 
-- 
2.43.0


From a17f445c7f805e71d760763827b123bdbcc31b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:16 +0000
Subject: [PATCH 04/41] fix: report a consumed template that cannot be removed

---
 template/template_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 6276ab6..1cfdbb7 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -135,7 +135,7 @@ func (t *Template) processTemplate(template, sourceFolder, targetFolder string,
 	}
 
 	if isTemplate && t.options[Overwrite] && sourceFolder == targetFolder {
-		os.Remove(template)
+		err = os.Remove(template)
 	}
 	return
 }
-- 
2.43.0


From 607a87d1d1f269ca85f317f54012e40633f0a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:17 +0000
Subject: [PATCH 05/41] fix: a shebang template does not redirect the results
 of the next batch

---
 template/template_handler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/template/template_handler.go b/template/template_handler.go
index 1cfdbb7..a01ef20 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -24,6 +24,7 @@ func (t *Template) ProcessTemplatesWithHandler(sourceFolder, targetFolder string
 	resultFiles = make([]string, 0, len(templates))
 
 	print := t.options[OutputStdout]
+	defer func() { t.options[OutputStdout] = print }()
 
 	var errors errors.Array
 	for i := range templates {
-- 
2.43.0


From 10862d5efcc45ee1ad01c2e9c77389671c16d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:49 +0000
Subject: [PATCH 06/41] fix: temporary scripts that cannot be completely
 written are not run nor left behind

---
 utils/exec.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/utils/exec.go b/utils/exec.go
index b9750dd..110ee58 100644
--- a/utils/exec.go
+++ b/utils/exec.go
@@ -100,12 +100,14 @@ func saveTempFile(content string, args ...interface{}) (cmd *exec.Cmd, fileName
 	if len(args) > 0 {
 		content += " " + fmt.Sprintln(args...)
 	}
-	if _, err = temp.WriteString(content); err != nil {
-		return
-	}
-	temp.Close()
 	fileName = temp.Name()
-	cmd, err = GetCommandFromFile(fileName)
+	_, err = temp.WriteString(content)
+	if errClose := temp.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		cmd, err = GetCommandFromFile(fileName)
+	}
 	return
 }
 
-- 
2.43.0


From 74b4858a0dbe9fd41c18e2b7e283a617cac1c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 07/41] fix: running a script file naming an unknown command is
 an error

---
 utils/exec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/exec.go b/utils/exec.go
index 110ee58..a8b809c 100644
--- a/utils/exec.go
+++ b/utils/exec.go
@@ -56,6 +56,7 @@ func GetCommandFromFile(filename string, args ...interface{}) (cmd *exec.Cmd, er
 			strArgs = append(split[1:], strArgs...)
 		} else {
 			// The command does not exist
+			err = errPath
 			return
 		}
 	}
-- 
2.43.0


From 3709dc337cf3b7fe1cfa90710ed2db84472a6c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:52 +0000
Subject: [PATCH 08/41] fix: report terraform formatter failures with their
 cause, without panicking

---
 utils/terraform.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/terraform.go b/utils/terraform.go
index 462eae4..9bcbbce 100644
--- a/utils/terraform.go
+++ b/utils/terraform.go
@@ -37,14 +37,16 @@ func TerraformFormat(files ...string) error {
 		cmd := exec.Command("terraform", "fmt")
 		cmd.Dir = folder
 		if output, err := cmd.CombinedOutput(); err != nil {
-			errs = append(errs, fmt.Errorf("%w: %s", errs, strings.TrimSpace(string(output))))
+			errs = append(errs, fmt.Errorf("terraform fmt in %s: %w: %s", folder, err, strings.TrimSpace(string(output))))
 			continue
 		}
 
 		// Sometimes, terraform fmt needs to be executed twice to format its content properly...
 		cmd = exec.Command("terraform", "fmt")
 		cmd.Dir = folder
-		errors.Must(cmd.Run())
+		if output, err := cmd.CombinedOutput(); err != nil {
+			errs = append(errs, fmt.Errorf("terraform fmt in %s: %w: %s", folder, err, strings.TrimSpace(string(output))))
+		}
 	}
 	return errs.AsError()
 }
-- 
2.43.0


From 703d25626c75085f07d0c4a505a1f5e06cffa696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 09/41] fix: a run whose terraform formatting fails is not a
 success

---
 main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 67cda35..7dc0dac 100644
--- a/main.go
+++ b/main.go
@@ -308,7 +308,10 @@ func runGotemplate() (exitCode int) {
 
 	// Apply terraform fmt if some generated files are terraform files
 	if !*printOutput {
-		utils.TerraformFormat(resultFiles...)
+		if err := utils.TerraformFormat(resultFiles...); err != nil {
+			errors.Print(err)
+			exitCode = 1
+		}
 	}
 	return
 }
-- 
2.43.0


From 51f444a7361ff980d62e578bec8303013789165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:28 +0000
Subject: [PATCH 10/41] fix: no temporary folder survives help, usage errors or
 an exit requested by a template

---
 main.go                   | 7 ++++++-
 template/extra_runtime.go | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 7dc0dac..c14b99f 100644
--- a/main.go
+++ b/main.go
@@ -25,7 +25,7 @@ import (
 )
 
 var version = "major.minor.patch # locally built, should be replaced by the build process with -ldflags \"-X main.version=<version number>\""
-var tempFolder = errors.Must(os.MkdirTemp("", "gotemplate-")).(string)
+var tempFolder string
 
 const (
 	envDisableStdinCheck = "GOTEMPLATE_NO_STDIN"
@@ -255,6 +255,10 @@ func runGotemplate() (exitCode int) {
 		errors.Print(err)
 		return 3
 	}
+	if tempFolder, err = os.MkdirTemp("", "gotemplate-"); err != nil {
+		errors.Print(err)
+		return 1
+	}
 	t.TempFolder(tempFolder)
 
 	if len(*ignoreRazor) > 0 {
@@ -360,6 +364,7 @@ func helpAction(app *kingpin.Application, c *kingpin.ParseContext) error {
 }
 
 func main() {
+	logrus.RegisterExitHandler(cleanup)
 	os.Exit(runGotemplate())
 }
 
diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index 57c7393..e7394e7 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -14,6 +14,7 @@ import (
 	"github.com/coveooss/gotemplate/v3/utils"
 	multicolor "github.com/coveooss/multilogger/color"
 	"github.com/fatih/color"
+	"github.com/sirupsen/logrus"
 )
 
 const (
@@ -163,7 +164,7 @@ func (t *Template) addRuntimeFuncs() {
 	})
 }
 
-func exit(exitValue int) int { os.Exit(exitValue); return exitValue }
+func exit(exitValue int) int { logrus.Exit(exitValue); return exitValue }
 
 func (t *Template) current() string { return t.folder }
 
-- 
2.43.0


From f6f44aaa5082e827349f29cd0aaeef817d42c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:29 +0000
Subject: [PATCH 11/41] fix: do not crash when standard input is closed

---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index c14b99f..feaf544 100644
--- a/main.go
+++ b/main.go
@@ -234,8 +234,8 @@ func runGotemplate() (exitCode int) {
 	// If target folder is not equal to source folder, we run in overwrite mode by default
 	*overwrite = *overwrite || *sourceFolder != *targetFolder
 
-	stat, _ := os.Stdin.Stat()
-	if (stat.Mode()&os.ModeCharDevice) == 0 && os.Getenv(envDisableStdinCheck) == "" {
+	stat, err := os.Stdin.Stat()
+	if err == nil && (stat.Mode()&os.ModeCharDevice) == 0 && os.Getenv(envDisableStdinCheck) == "" {
 		*forceStdin = true
 	}
 
-- 
2.43.0


From 592300daa209de77de7a14d3059579f5206d90b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 12/41] fix: httpDoc releases its connection

---
 template/extra_net.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/template/extra_net.go b/template/extra_net.go
index e11c58e..b40e195 100644
--- a/template/extra_net.go
+++ b/template/extra_net.go
@@ -47,5 +47,6 @@ func httpDocument(url interface{}) (interface{}, error) {
 	if err != nil {
 		return response, err
 	}
+	defer response.Body.Close()
 	return goquery.NewDocumentFromReader(response.Body)
 }
-- 
2.43.0


From 2e23d33b1607c6bcda6a5bab2c0c9b7c866b0d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 13/41] fix: find each file once, even through several patterns
 or symbolic links, without endless recursion

---
 utils/io.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index 8727828..73792b1 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -22,11 +22,12 @@ func FindFiles(folder string, recursive, followLinks bool, patterns ...string) (
 
 // FindFilesMaxDepth returns the list of the files matching the array of patterns
 func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns ...string) ([]string, error) {
-	visited := map[string]bool{}
+	visited, found := map[string]bool{}, map[string]bool{}
 	var walker func(folder string) ([]string, error)
 	walker = func(folder string) ([]string, error) {
-		results := must(findFiles(folder, patterns...)).([]string)
+		results := unique(found, must(findFiles(folder, patterns...)).([]string))
 		folder, _ = filepath.Abs(folder)
+		visited[folder] = true
 		if maxDepth == 0 {
 			return results, nil
 		}
@@ -36,29 +37,25 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 				return nil
 			}
 			if info.IsDir() {
-				visited[path] = true
 				depth := strings.Count(must(filepath.Rel(path, folder)).(string), "..")
 				if depth > maxDepth {
 					return filepath.SkipDir
 				}
+				visited[path] = true
 				files, err := findFiles(path, patterns...)
 				if err != nil {
 					return err
 				}
-				results = append(results, files...)
+				results = append(results, unique(found, files)...)
 				return nil
 			}
 
 			if info.Mode()&os.ModeSymlink != 0 && followLinks {
-				link, err := os.Readlink(path)
+				link, err := filepath.EvalSymlinks(path)
 				if err != nil {
-					return err
-				}
-
-				if !filepath.IsAbs(link) {
-					link = filepath.Join(filepath.Dir(path), link)
+					// The link leads nowhere (or it has just been removed)
+					return nil
 				}
-				link, _ = filepath.Abs(link)
 				if !visited[link] {
 					// Check if we already visited that link to avoid recursive loop
 					linkFiles, err := walker(link)
@@ -75,6 +72,17 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 	return walker(folder)
 }
 
+// unique returns the files that have not already been found
+func unique(found map[string]bool, files []string) (result []string) {
+	for _, file := range files {
+		if !found[file] {
+			found[file] = true
+			result = append(result, file)
+		}
+	}
+	return
+}
+
 // FindFiles returns the list of files in the specified folder that match one of the supplied patterns
 func findFiles(folder string, patterns ...string) ([]string, error) {
 	var matches []string
-- 
2.43.0


From 9768e7af5c0d799b9f63a90b58e6cbed031f3130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 14/41] fix: find templates in folders whose name contains glob
 special characters

---
 utils/io.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/io.go b/utils/io.go
index 73792b1..6c01331 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"os"
 	"path/filepath"
+	"runtime"
 	"strings"
 
 	"github.com/coveooss/gotemplate/v3/collections"
@@ -83,9 +84,15 @@ func unique(found map[string]bool, files []string) (result []string) {
 	return
 }
 
+var globEscape = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`)
+
 // FindFiles returns the list of files in the specified folder that match one of the supplied patterns
 func findFiles(folder string, patterns ...string) ([]string, error) {
 	var matches []string
+	if runtime.GOOS != "windows" {
+		// The folder is not a pattern, its special characters must be taken literally
+		folder = globEscape.Replace(folder)
+	}
 	for _, pattern := range patterns {
 		files, err := filepath.Glob(filepath.Join(folder, pattern))
 		if err != nil {
-- 
2.43.0


From 4a885891df61f156c271de1c6cd84532b00342c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:05 +0000
Subject: [PATCH 15/41] fix: search recursively in a source folder that is a
 symbolic link

---
 utils/io.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index 6c01331..4b66bbd 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -33,8 +33,10 @@ func FindFilesMaxDepth(folder string, maxDepth int, followLinks bool, patterns .
 			return results, nil
 		}
 
-		filepath.Walk(folder, func(path string, info os.FileInfo, err error) error {
-			if info == nil || path == folder {
+		// The trailing separator makes the search enter a folder that is itself a symbolic link
+		root := folder + string(filepath.Separator)
+		filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
+			if info == nil || path == root {
 				return nil
 			}
 			if info.IsDir() {
-- 
2.43.0


From 99dc218bff11d3e6862f96ae69ba3ee81ed7e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 16/41] fix: a variables file that exists but cannot be read is
 an error

---
 context.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/context.go b/context.go
index 20c0620..2eb4bc8 100644
--- a/context.go
+++ b/context.go
@@ -66,6 +66,10 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 				var content interface{}
 				loadErr := collections.LoadData(filename, &content)
 				_, isFileErr := loadErr.(*os.PathError)
+				if stat, statErr := os.Stat(filename); isFileErr && statErr == nil && !stat.IsDir() {
+					// The file exists, so its name must not be considered as its content
+					return nil, fmt.Errorf("%w (unreadable)", loadErr)
+				}
 				if loadErr == nil {
 					if nv.name == "" && !nv.unnamed {
 						if content, err := collections.TryAsDictionary(content); err == nil {
-- 
2.43.0


From 7c855f6dda0abc5ae5c35cee5e4f4cc17b4083ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:08 +0000
Subject: [PATCH 17/41] fix: an included or executed file that exists but
 cannot be read is an error

---
 template/extra_runtime.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index e7394e7..f2d4c0d 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -475,7 +475,8 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 				tryFile = path.Join(t.folder, tryFile)
 			}
 			if fileContent, e := os.ReadFile(tryFile); e != nil {
-				if _, ok := e.(*os.PathError); !ok {
+				stat, statErr := os.Stat(tryFile)
+				if _, ok := e.(*os.PathError); !ok || statErr == nil && !stat.IsDir() {
 					err = e
 					return
 				}
-- 
2.43.0


From b60fa22f29e3da9f79f628f2df10b7196291c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 18/41] fix: a template file that cannot be read is not
 rendered from its name

---
 template/template_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index a01ef20..88e3df3 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -48,7 +48,7 @@ func (t *Template) processTemplate(template, sourceFolder, targetFolder string,
 	if fileContent, fileError := os.ReadFile(template); fileError == nil {
 		content = string(fileContent)
 		isCode = false
-	} else if isCode {
+	} else if info, statError := os.Stat(template); isCode && (statError != nil || info.IsDir()) {
 		content = template
 		template = "."
 	} else {
-- 
2.43.0


From dae32ee15676995903d482dce25f3fd4189cb735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:14 +0000
Subject: [PATCH 19/41] fix: a template included with a retry is not converted
 twice from razor

---
 template/extra_runtime.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index f2d4c0d..e9786a2 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -440,6 +440,7 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 	}
 	var out bytes.Buffer
 
+	originalSource := source
 	parentContext := t.context
 	defer func() { t.context = parentContext }()
 	var context collections.IDictionary
@@ -512,7 +513,7 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 		if !withClone {
 			InternalLog.Debug("Running template with context cloning because:", err)
 			t.context = parentContext
-			return optimizedRunTemplate(t, true, source, args...)
+			return optimizedRunTemplate(t, true, originalSource, args...)
 		}
 	}
 
-- 
2.43.0


From a78fef5b0f3ab60b11ad2e9a0260f3584caf0f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 20/41] fix: an error reported at an unexpected position does
 not abort the run

---
 template/template_error_handler.go | 31 ++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index 67241fc..e7954d3 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -22,6 +22,7 @@ type errorHandler struct {
 }
 
 func (t errorHandler) Handler(err error) (string, bool, error) {
+	originalError := err
 	if t.Lines == nil {
 		t.Lines = strings.Split(t.Source, "\n")
 	}
@@ -59,18 +60,27 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			if fileContent, err := os.ReadFile(matches[tagFile]); err != nil {
 				line = fmt.Sprintf("Unable to read file: %v", err)
 			} else {
-				line = String(fileContent).Lines()[toInt(matches[tagLine])-1].Str()
+				line = lineAt(String(fileContent).Lines().Strings(), toInt(matches[tagLine])-1)
 			}
 			return "", true, fmt.Errorf("%s %w in: %s", color.WhiteString(t.Filename), err, color.HiBlackString(line))
 		}
 
+		if faultyLine < 0 || faultyLine >= len(lines) {
+			// The reported position is not in the code, we cannot try to recuperate
+			return "", true, err
+		}
+
 		currentLine := String(lines[faultyLine])
-		if faultyColumn != 0 && strings.Contains(" (", currentLine[faultyColumn:faultyColumn+1].Str()) {
+		if faultyColumn < 0 {
+			// The reported column is the position of the line break preceding the line
+			faultyColumn = 0
+		}
+		if faultyColumn != 0 && faultyColumn < len(currentLine) && strings.Contains(" (", currentLine[faultyColumn:faultyColumn+1].Str()) {
 			// Sometime, the error is not reporting the exact column, we move 1 char forward to get the real problem
 			faultyColumn++
 		}
 
-		errorLine := fmt.Sprintf(" in: %s", color.HiBlackString(t.Lines[faultyLine]))
+		errorLine := fmt.Sprintf(" in: %s", color.HiBlackString(lineAt(t.Lines, faultyLine)))
 		var logMessage string
 		if key != "" {
 			// Missing key and we disabled the <no value> mode
@@ -157,7 +167,12 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 		if err != nil {
 			err = fmt.Errorf("%s%s%s", color.WhiteString(matches[tagLocation]), errorText, errorLine)
 		}
-		if lines[faultyLine] != currentLine.Str() || strings.Contains(err.Error(), noValueError) {
+		changed := lines[faultyLine] != currentLine.Str()
+		if err == nil && !changed {
+			// There is nothing to retry, the error must not be lost
+			return "", true, originalError
+		}
+		if changed || strings.Contains(err.Error(), noValueError) {
 			// If we changed something in the current text, we try to continue the evaluation to get further errors
 			newCode := strings.Join(lines, "\n")
 			if err != nil {
@@ -182,6 +197,14 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 	return "", true, err
 }
 
+// lineAt returns the nth line or an empty string if the reported position is not in the source.
+func lineAt(lines []string, n int) string {
+	if n < 0 || n >= len(lines) {
+		return ""
+	}
+	return lines[n]
+}
+
 var (
 	errorParsingExpressions []*regexp.Regexp
 	linePrefix              = `template: ` + p(tagLocation, p(tagFile, `.*?`)+`:`+p(tagLine, `\d+`)+`(:`+p(tagCol, `\d+`)+`)?: `)
-- 
2.43.0


From 5ff86581b1ad4db05dce3ac568bda4b900e71dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:48 +0000
Subject: [PATCH 21/41] fix: an input that cannot be examined is not taken for
 a missing one

---
 context.go                   |  3 ++-
 template/extra_runtime.go    |  3 +--
 template/template_handler.go |  2 +-
 utils/io.go                  | 15 +++++++++++++--
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/context.go b/context.go
index 2eb4bc8..1b66620 100644
--- a/context.go
+++ b/context.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/coveooss/gotemplate/v3/collections"
 	"github.com/coveooss/gotemplate/v3/template"
+	"github.com/coveooss/gotemplate/v3/utils"
 )
 
 func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string, ignoreMissingFiles bool) (collections.IDictionary, error) {
@@ -66,7 +67,7 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 				var content interface{}
 				loadErr := collections.LoadData(filename, &content)
 				_, isFileErr := loadErr.(*os.PathError)
-				if stat, statErr := os.Stat(filename); isFileErr && statErr == nil && !stat.IsDir() {
+				if isFileErr && utils.IsUnreadable(filename) {
 					// The file exists, so its name must not be considered as its content
 					return nil, fmt.Errorf("%w (unreadable)", loadErr)
 				}
diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index e9786a2..bc9b095 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -476,8 +476,7 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 				tryFile = path.Join(t.folder, tryFile)
 			}
 			if fileContent, e := os.ReadFile(tryFile); e != nil {
-				stat, statErr := os.Stat(tryFile)
-				if _, ok := e.(*os.PathError); !ok || statErr == nil && !stat.IsDir() {
+				if _, ok := e.(*os.PathError); !ok || utils.IsUnreadable(tryFile) {
 					err = e
 					return
 				}
diff --git a/template/template_handler.go b/template/template_handler.go
index 88e3df3..fea8e46 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -48,7 +48,7 @@ func (t *Template) processTemplate(template, sourceFolder, targetFolder string,
 	if fileContent, fileError := os.ReadFile(template); fileError == nil {
 		content = string(fileContent)
 		isCode = false
-	} else if info, statError := os.Stat(template); isCode && (statError != nil || info.IsDir()) {
+	} else if isCode && !utils.IsUnreadable(template) {
 		content = template
 		template = "."
 	} else {
diff --git a/utils/io.go b/utils/io.go
index 4b66bbd..e38feff 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -1,16 +1,18 @@
 package utils
 
 import (
+	"errors"
 	"os"
 	"path/filepath"
 	"runtime"
 	"strings"
+	"syscall"
 
 	"github.com/coveooss/gotemplate/v3/collections"
-	"github.com/coveooss/multilogger/errors"
+	multierrors "github.com/coveooss/multilogger/errors"
 )
 
-var must = errors.Must
+var must = multierrors.Must
 
 // FindFiles returns the list of the files matching the array of patterns
 func FindFiles(folder string, recursive, followLinks bool, patterns ...string) ([]string, error) {
@@ -149,3 +151,12 @@ func Relative(folder, file string) string {
 	}
 	return must(filepath.Rel(folder, file)).(string)
 }
+
+// IsUnreadable determines if a file that cannot be read is there, as opposed to a name that designates no file.
+func IsUnreadable(filename string) bool {
+	stat, err := os.Stat(filename)
+	if err != nil {
+		return os.IsPermission(err) || errors.Is(err, syscall.EIO)
+	}
+	return !stat.IsDir()
+}
-- 
2.43.0


From 633293b49da322a488826145618937abc847fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 22/41] fix: format the terraform folders in a reproducible
 order

---
 utils/terraform.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/utils/terraform.go b/utils/terraform.go
index 9bcbbce..3e61401 100644
--- a/utils/terraform.go
+++ b/utils/terraform.go
@@ -25,15 +25,17 @@ func TerraformFormat(files ...string) error {
 		return nil
 	}
 
-	tfFolders := make(map[string]bool)
+	var tfFolders []string
+	found := make(map[string]bool)
 	for _, file := range files {
-		if IsTerraformFile(file) {
-			tfFolders[filepath.Dir(file)] = true
+		if folder := filepath.Dir(file); IsTerraformFile(file) && !found[folder] {
+			found[folder] = true
+			tfFolders = append(tfFolders, folder)
 		}
 	}
 
 	var errs errors.Array
-	for folder := range tfFolders {
+	for _, folder := range tfFolders {
 		cmd := exec.Command("terraform", "fmt")
 		cmd.Dir = folder
 		if output, err := cmd.CombinedOutput(); err != nil {
-- 
2.43.0


From 996c46bd96a394a58c0b3c55e588066a66b1e220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:12 +0000
Subject: [PATCH 23/41] fix: variables given together are loaded in a
 reproducible order

---
 context.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 1b66620..6472de3 100644
--- a/context.go
+++ b/context.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/coveooss/gotemplate/v3/collections"
@@ -53,8 +54,13 @@ func createContext(varsFiles, varsFilesIfExist, namedVars []string, mode string,
 			name, value := collections.Split2(namedVars[i], "=")
 			data[name] = value
 		}
-		for key, value := range data {
-			nameValuePairs = append(nameValuePairs, fileDef{name: key, value: value})
+		keys := make([]string, 0, len(data))
+		for key := range data {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+		for _, key := range keys {
+			nameValuePairs = append(nameValuePairs, fileDef{name: key, value: data[key]})
 		}
 	}
 
-- 
2.43.0


From e520ca89d7463f22da013d0ab18a2b27b7829ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:18 +0000
Subject: [PATCH 24/41] fix: a folder whose name matches the pattern is not
 taken for a template

---
 utils/io.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/io.go b/utils/io.go
index e38feff..0f3d560 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -102,7 +102,13 @@ func findFiles(folder string, patterns ...string) ([]string, error) {
 		if err != nil {
 			return nil, err
 		}
-		matches = append(matches, files...)
+		for _, file := range files {
+			if info, err := os.Stat(file); err == nil && info.IsDir() {
+				// A folder is not a file, even if its name matches
+				continue
+			}
+			matches = append(matches, file)
+		}
 	}
 	return matches, nil
 }
-- 
2.43.0


From 6921b82ebec201ccdcddc0de7ff5b6da52db6dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:29 +0000
Subject: [PATCH 25/41] fix: all is not declared as a second definition of
 without

---
 template/extra_sprig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_sprig.go b/template/extra_sprig.go
index 4b21926..453d1b2 100644
--- a/template/extra_sprig.go
+++ b/template/extra_sprig.go
@@ -224,7 +224,7 @@ var sprigFuncRef = map[string]struct {
 	"valuesSprig":    {group: sprigDict, description: "Is similar to 'keys', except it returns a new 'list' with all the values of the source 'dict' (only one dictionary is supported).", aliases: []string{"values"}},
 
 	// Lists functions
-	"all":          {group: sprigList, description: "Filters items out of a list.", aliases: []string{"without"}},
+	"all":          {group: sprigList, description: "Filters items out of a list."},
 	"any":          {group: sprigList, description: "Takes a list of values and returns true if any values are non-empty."},
 	"appendSprig":  {group: sprigList, description: "Append a new item to an existing list, creating a new list.", aliases: []string{"append"}},
 	"chunk":        {group: sprigList, description: "Split a list into chunks of given size, use chunk size list. This is useful for pagination.", arguments: []string{"nbChunks", "list"}},
-- 
2.43.0


From 330c982c2b5aa67be678fb6ea2c2551e9b9c29e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 26/41] fix: templates lists the templates in a reproducible
 order

---
 template/add_funcs.go     | 8 ++++++++
 template/extra_runtime.go | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/template/add_funcs.go b/template/add_funcs.go
index d21cb90..fe1a22c 100644
--- a/template/add_funcs.go
+++ b/template/add_funcs.go
@@ -3,6 +3,7 @@ package template
 import (
 	"sort"
 	"sync"
+	"text/template"
 
 	"github.com/coveooss/gotemplate/v3/utils"
 )
@@ -54,6 +55,13 @@ func (t *Template) substitute(content string) string {
 	return utils.Substitute(content, t.substitutes...)
 }
 
+// List the available templates, ordered by name
+func (t *Template) getTemplates() []*template.Template {
+	result := t.Templates()
+	sort.Slice(result, func(i, j int) bool { return result[i].Name() < result[j].Name() })
+	return result
+}
+
 // List the available template names
 func (t *Template) getTemplateNames() []string {
 	templates := t.Templates()
diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index bc9b095..39c1f7c 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -153,7 +153,7 @@ func (t *Template) addRuntimeFuncs() {
 		"run":              t.runCommand,
 		"substitute":       t.substitute,
 		"templateNames":    t.getTemplateNames,
-		"templates":        t.Templates,
+		"templates":        t.getTemplates,
 		"userContext":      t.cloneUserContext,
 	}
 	t.AddFunctions(funcs, runtimeFunc, FuncOptions{
-- 
2.43.0


From eaddc89d6de833e065993e06be78adb1e14721db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 27/41] fix: extensions defining the same template override
 each other in a reproducible order

---
 template/template.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/template/template.go b/template/template.go
index 070ebb8..09efc27 100644
--- a/template/template.go
+++ b/template/template.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 	"sync"
 	"text/template"
@@ -286,8 +287,13 @@ func (t *Template) initExtension() {
 	}
 
 	// Add the children contexts to the main context
-	for _, context := range ext.children {
-		t.importTemplates(context)
+	folders := make([]string, 0, len(ext.children))
+	for folder := range ext.children {
+		folders = append(folders, folder)
+	}
+	sort.Strings(folders)
+	for _, folder := range folders {
+		t.importTemplates(ext.children[folder])
 	}
 
 	// We reset the list of templates
-- 
2.43.0


From 37237c83432cfdeffd62bb231be1ce2ff1f1fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:31 +0000
Subject: [PATCH 28/41] fix: a log file that cannot be written does not prevent
 the output to be printed

---
 main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index feaf544..6851847 100644
--- a/main.go
+++ b/main.go
@@ -211,8 +211,14 @@ func runGotemplate() (exitCode int) {
 		errors.Printf("Unable to set logging level for internal logs: %v", err)
 	}
 	if path := *logFilePath; path != "" {
-		template.TemplateLog.AddFile(path, false, *templateLogFileLevel)
-		template.InternalLog.AddFile(path, false, *internalLogFileLevel)
+		// Hooks are fired in the order of their names and the first one that fails prevents the others to be fired.
+		// So, the file hook is named to be after the console hook, otherwise nothing could be printed if the log file
+		// is not writable.
+		addFile := func(logger *multilogger.Logger, level string) {
+			logger.AddHook("log-file:"+path, level, multilogger.NewFileHook(path, false, level).GetInnerHook())
+		}
+		addFile(template.TemplateLog, *templateLogFileLevel)
+		addFile(template.InternalLog, *internalLogFileLevel)
 	}
 
 	if *targetFolder == "" {
-- 
2.43.0


From e20647233f7b3365cb845d4257aa9c80628909ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:11 +0000
Subject: [PATCH 29/41] fix: stop retrying a template whose error cannot be
 recovered

---
 template/template_error_handler.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index e7954d3..c4d63a2 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -151,7 +151,13 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			}
 		} else if value != "" {
 			logMessage = fmt.Sprintf("Parsing error: %s", err)
-			lines[faultyLine] = currentLine.Replace(value, fmt.Sprintf(`"<UNDEF %s>"`, value)).Str()
+			undef, wiped := fmt.Sprintf(`"<UNDEF %s>"`, value), fmt.Sprintf("ERROR %s", errText)
+			if currentLine.Contains(undef) || currentLine.Str() == wiped {
+				// The replacement did not help, the value is in fact on another line
+				lines[faultyLine] = wiped
+			} else {
+				lines[faultyLine] = currentLine.Replace(value, undef).Str()
+			}
 		} else {
 			logMessage = fmt.Sprintf("Parsing error: %s", err)
 			lines[faultyLine] = fmt.Sprintf("ERROR %s", errText)
@@ -172,6 +178,10 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			// There is nothing to retry, the error must not be lost
 			return "", true, originalError
 		}
+		if t.Try > t.maxTry() {
+			// There are more errors than what the source could hold, retrying leads nowhere
+			return "", true, originalError
+		}
 		if changed || strings.Contains(err.Error(), noValueError) {
 			// If we changed something in the current text, we try to continue the evaluation to get further errors
 			newCode := strings.Join(lines, "\n")
@@ -197,6 +207,14 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 	return "", true, err
 }
 
+// maxTry returns the maximum number of errors that could reasonably be found in the source.
+func (t errorHandler) maxTry() (count int) {
+	for _, line := range t.Lines {
+		count += 2 + 2*strings.Count(line, t.LeftDelim()) + 2*strings.Count(line, t.RazorDelim()) + strings.Count(line, "$")
+	}
+	return
+}
+
 // lineAt returns the nth line or an empty string if the reported position is not in the source.
 func lineAt(lines []string, n int) string {
 	if n < 0 || n >= len(lines) {
-- 
2.43.0


From 86c45c45a88adc21582dd1b37207f4b20c6fdd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:24 +0000
Subject: [PATCH 30/41] fix: including a name never gives a previously
 processed content

---
 template/extra_runtime.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index 39c1f7c..b0b4531 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -468,6 +468,10 @@ func optimizedRunTemplate(t *Template, withClone bool, source string, args ...in
 
 	// We first try to find a template named <source>
 	internalTemplate := t.Lookup(source)
+	if internalTemplate != nil && internalTemplate.Tree != nil && internalTemplate.Name() == internalTemplate.ParseName {
+		// This is not a defined template, but the content of a file (or an inline code) that has already been processed
+		internalTemplate = nil
+	}
 	if internalTemplate == nil {
 		// This is not a template, so we try to load file named <source>
 		if !strings.Contains(source, "\n") {
-- 
2.43.0


From 1dcb58c4009fdf58c51c6772e155ec0dde729375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:38 +0000
Subject: [PATCH 31/41] fix: recovering from an error never changes the context
 of the next templates

---
 template/template_error_handler.go | 3 ++-
 template/template_handler.go       | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/template/template_error_handler.go b/template/template_error_handler.go
index c4d63a2..fe0c987 100644
--- a/template/template_error_handler.go
+++ b/template/template_error_handler.go
@@ -19,6 +19,7 @@ type errorHandler struct {
 	Code     string   // Modified code
 	Lines    []string // Original source code as an array of string (one per line)
 	Try      int      // The current evaluation try
+	Clone    bool     // The context is cloned for each evaluation
 }
 
 func (t errorHandler) Handler(err error) (string, bool, error) {
@@ -188,7 +189,7 @@ func (t errorHandler) Handler(err error) (string, bool, error) {
 			if err != nil {
 				InternalLog.Infof("Retrying %d with:\n%s", t.Try, color.HiBlackString(String(newCode).AddLineNumber(0).Str()))
 			}
-			result, changed, err2 := t.processContentInternal(newCode, t.Filename, t.Lines, t.Try+1, false, nil)
+			result, changed, err2 := t.processContentInternal(newCode, t.Filename, t.Lines, t.Try+1, t.Clone, nil)
 			if err2 != nil {
 				if err != nil {
 					if err.Error() == err2.Error() {
diff --git a/template/template_handler.go b/template/template_handler.go
index fea8e46..ab275c4 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -149,6 +149,7 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 		Code:     originalContent,
 		Lines:    originalSourceLines,
 		Try:      retryCount,
+		Clone:    cloneContext,
 	}
 
 	topCall := th.Lines == nil
-- 
2.43.0


From a9d1d980da5383438ba6665dac58f37353f1349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:32 +0000
Subject: [PATCH 32/41] fix: cloned lists are distinct from the original, and a
 list that holds a single list is not flattened

---
 collections/implementation/base_helper.go | 12 ++++++++++++
 collections/implementation/dict_helper.go | 10 +---------
 collections/implementation/list_helper.go |  8 ++++++--
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/collections/implementation/base_helper.go b/collections/implementation/base_helper.go
index 9d1a02c..7c9f7e9 100644
--- a/collections/implementation/base_helper.go
+++ b/collections/implementation/base_helper.go
@@ -217,6 +217,18 @@ func (bh BaseHelper) TryConvert(object interface{}) (interface{}, bool) {
 	return object, false
 }
 
+// cloneValue returns a distinct copy of dictionaries and lists, other values are returned unaltered.
+func (bh BaseHelper) cloneValue(value interface{}) interface{} {
+	if value != nil {
+		if v, err := bh.TryAsDictionary(value); err == nil {
+			return DictHelper{bh}.Clone(v, nil)
+		} else if v, err := bh.TryAsList(value); err == nil {
+			return ListHelper{bh}.Clone(v)
+		}
+	}
+	return value
+}
+
 // NeedConversion determine if the object need deep conversion.
 //
 //	strict indicates that the type must be converted to the desired type
diff --git a/collections/implementation/dict_helper.go b/collections/implementation/dict_helper.go
index e2dfc6a..e45f23f 100644
--- a/collections/implementation/dict_helper.go
+++ b/collections/implementation/dict_helper.go
@@ -35,15 +35,7 @@ func (dh DictHelper) Clone(dict baseIDict, keys []interface{}) baseIDict {
 	}
 	newDict := dh.CreateDictionary(dict.Len())
 	for i := range keys {
-		value := dict.Get(keys[i])
-		if value != nil {
-			if v, err := dh.TryAsDictionary(value); err == nil {
-				value = dh.Clone(v, nil)
-			} else if v, err := dh.TryAsList(value); err == nil {
-				value = dh.ConvertList(v.Clone())
-			}
-		}
-		newDict.Set(keys[i], value)
+		newDict.Set(keys[i], dh.cloneValue(dict.Get(keys[i])))
 	}
 	return newDict
 }
diff --git a/collections/implementation/list_helper.go b/collections/implementation/list_helper.go
index abac497..c4112b4 100644
--- a/collections/implementation/list_helper.go
+++ b/collections/implementation/list_helper.go
@@ -27,9 +27,13 @@ func (lh ListHelper) Add(list baseIList, prepend bool, objects ...interface{}) b
 	return lh.AsList(append(array, objects...))
 }
 
-// Clone returns a copy of the supplied list.
+// Clone returns a distinct copy of the supplied list, including its nested dictionaries and lists.
 func (lh ListHelper) Clone(list baseIList) baseIList {
-	return lh.NewList(list.AsArray()...)
+	newList := lh.CreateList(list.Len())
+	for i, value := range list.AsArray() {
+		newList.Set(i, lh.cloneValue(value))
+	}
+	return newList
 }
 
 // Contains indicates if the list contains all specified elements
-- 
2.43.0


From 22fa7964f2b2d85e481e5be1f47a913a3c0e385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:16 +0000
Subject: [PATCH 33/41] fix: the print option of a shebang never applies to the
 next templates

---
 template/template_handler.go | 3 +++
 template/template_process.go | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/template/template_handler.go b/template/template_handler.go
index ab275c4..5364f3d 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -42,6 +42,9 @@ func (t *Template) ProcessTemplatesWithHandler(sourceFolder, targetFolder string
 }
 
 func (t *Template) processTemplate(template, sourceFolder, targetFolder string, handler CustomHandler) (resultFile string, err error) {
+	print := t.options[OutputStdout]
+	defer func() { t.options[OutputStdout] = print }() // The file may change this option at runtime
+
 	isCode := t.IsCode(template)
 	var content string
 
diff --git a/template/template_process.go b/template/template_process.go
index 9c82ec8..dba6fa8 100644
--- a/template/template_process.go
+++ b/template/template_process.go
@@ -37,6 +37,8 @@ const (
 
 // ProcessContent loads and runs the file template.
 func (t *Template) ProcessContent(content, source string) (result string, err error) {
+	print := t.options[OutputStdout]
+	defer func() { t.options[OutputStdout] = print }() // The content may change this option at runtime
 	result, _, err = t.processContentInternal(content, source, nil, 0, true, nil)
 	return
 }
-- 
2.43.0


From 66902295ec75ccee6ae524c9c168ae2fbcbcb244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:47 +0000
Subject: [PATCH 34/41] fix: included code never changes the context of the
 next templates

---
 template/template_handler.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index 5364f3d..cffac1c 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -261,9 +261,13 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 	var out bytes.Buffer
 	workingContext := t.context
 	if cloneContext {
-		workingContext = collections.AsDictionary(workingContext).Clone()
+		err = context.isolate(func() error {
+			return newTemplate.Execute(&out, collections.AsDictionary(workingContext).Clone())
+		})
+	} else {
+		err = newTemplate.Execute(&out, workingContext)
 	}
-	if err = newTemplate.Execute(&out, workingContext); err != nil {
+	if err != nil {
 		InternalLog.Debugf("%s(%d): Execution error %v", th.Filename, th.Try, err)
 		return th.Handler(err)
 	}
@@ -292,3 +296,14 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 	changed = result != originalContent
 	return
 }
+
+// isolate executes the action while the templates and functions included by the action (which are able to reach the
+// global context) work on a copy of the context. So, the action cannot alter what is seen by the next ones.
+func (t *Template) isolate(action func() error) error {
+	for current := t; current != nil; current = current.parent {
+		current, original := current, current.context
+		current.context = current.Context().Clone()
+		defer func() { current.context = original }()
+	}
+	return action()
+}
-- 
2.43.0


From ca6ca2d1e0909423f1a67fdef25e1a327cbcff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:00 +0000
Subject: [PATCH 35/41] fix: the shell used by commands never depends on a
 previous lookup

---
 utils/exec.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/utils/exec.go b/utils/exec.go
index a8b809c..c852e8a 100644
--- a/utils/exec.go
+++ b/utils/exec.go
@@ -113,24 +113,18 @@ func saveTempFile(content string, args ...interface{}) (cmd *exec.Cmd, fileName
 }
 
 func getDefaultShell() string {
-	if defaultShell != "" {
-		return defaultShell
-	}
 	defShells := []string{"bash", "sh", "zsh", "ksh"}
 	if runtime.GOOS == "windows" {
 		defShells = []string{"powershell", "pwsh", "cmd"}
 	}
 	for _, sh := range defShells {
 		if sh, err := exec.LookPath(sh); err == nil {
-			defaultShell = sh
-			break
+			return sh
 		}
 	}
-	return defaultShell
+	return ""
 }
 
-var defaultShell string
-
 // GetEnv returns the environment variable value or defaultValue if it does not exist.
 func GetEnv(varName, defaultValue string) string {
 	if value, exist := os.LookupEnv(varName); exist {
-- 
2.43.0


From cbd34d44d48054483d0661d13ea540e7b85ffb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:06 +0000
Subject: [PATCH 36/41] fix: a folder that could not be determined is reported
 and never kept for the next templates

---
 template/template_handler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/template/template_handler.go b/template/template_handler.go
index cffac1c..5c7b16b 100644
--- a/template/template_handler.go
+++ b/template/template_handler.go
@@ -242,7 +242,11 @@ func (t *Template) processContentInternal(originalContent, source string, origin
 		}()
 	}
 
-	context := t.GetNewContext(filepath.Dir(th.Filename), true)
+	folder, err := filepath.Abs(filepath.Dir(th.Filename))
+	if err != nil {
+		return "", false, err
+	}
+	context := t.GetNewContext(folder, true)
 	newTemplate := context.New(th.Filename)
 	newTemplate.Option("missingkey=default")
 
-- 
2.43.0


From a390f0f591cd313fe23a9354e2e7f54d8e0096a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:19 +0000
Subject: [PATCH 37/41] fix: the function definitions and their examples are no
 longer shared by the templates of a process

---
 template/func_table.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/template/func_table.go b/template/func_table.go
index 1cb2b1d..c1c0625 100644
--- a/template/func_table.go
+++ b/template/func_table.go
@@ -232,23 +232,35 @@ func (t *Template) addFunctions(funcMap funcTableMap) *Template {
 	if t.functions == nil {
 		t.functions = make(funcTableMap)
 	}
+	// The tables supplied are shared by all templates, so we keep our own copy of the definitions
+	added, aliases := make(funcTableMap, len(funcMap)), make(funcTableMap)
 	for key, value := range funcMap {
-		value.name = key
-		t.functions[key] = value
-		for i := range value.aliases {
-			funcMap[value.aliases[i]] = &FuncInfo{alias: value, function: value.function, name: value.aliases[i]}
-			t.functions[value.aliases[i]] = funcMap[value.aliases[i]]
+		info := *value
+		info.name = key
+		info.aliases = append([]string(nil), value.aliases...)
+		added[key] = &info
+		for _, alias := range info.aliases {
+			aliases[alias] = &FuncInfo{alias: &info, function: info.function, name: alias}
 		}
 	}
-	t.Funcs(funcMap.convert())
+	for key, value := range aliases {
+		added[key] = value
+	}
+	for key, value := range added {
+		t.functions[key] = value
+	}
+	t.Funcs(added.convert())
 	return t
 }
 
 // Completes example that are not fully described.
 func (t *Template) completeExamples() string {
-	for _, function := range t.functions {
-		for i := range function.examples {
-			example := &function.examples[i]
+	// The examples are shared by all templates, so we complete our own copy
+	completed := make(map[string][]Example, len(t.functions))
+	for _, name := range t.getAllFunctions() {
+		examples := append([]Example(nil), t.functions[name].examples...)
+		for i := range examples {
+			example := &examples[i]
 			if example.Razor != "" && example.Template == "" {
 				result, _ := t.applyRazor([]byte(example.Razor))
 				example.Template = string(result)
@@ -260,6 +272,10 @@ func (t *Template) completeExamples() string {
 				}
 			}
 		}
+		completed[name] = examples
+	}
+	for name, examples := range completed {
+		t.functions[name].examples = examples
 	}
 	return ""
 }
-- 
2.43.0


From bb754285e9a87dadd4c20c9bf2c6c30188e23659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:38 +0000
Subject: [PATCH 38/41] fix: the razor conversion of independent templates no
 longer shares unprotected tables

---
 template/razor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/template/razor.go b/template/razor.go
index c37f2c6..f6ce0fe 100644
--- a/template/razor.go
+++ b/template/razor.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
+	"sync"
 
 	"github.com/fatih/color"
 	"github.com/sirupsen/logrus"
@@ -14,6 +15,10 @@ func (t *Template) applyRazor(content []byte) (result []byte, changed bool) {
 	if !t.options[Razor] || !t.IsRazor(string(content)) {
 		return content, false
 	}
+
+	// The compiled expressions and the strings put aside during the conversion are shared by all templates
+	razorMutex.Lock()
+	defer razorMutex.Unlock()
 	t.ensureInit()
 
 	for _, ignoredExpr := range t.ignoredRazorExpr {
@@ -146,6 +151,7 @@ var expressions = [][]interface{}{
 }
 
 var replacementsInit = make(map[string][]replacement)
+var razorMutex sync.Mutex
 
 type replacementFunc func(replacement, string) string
 type replacement struct {
-- 
2.43.0


From 1b5a12e82c8eee07e1f3e06b4fbf5a6f087ab7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:32 +0000
Subject: [PATCH 39/41] fix: saving a file in a new folder works while another
 run creates that folder

---
 template/extra_os.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template/extra_os.go b/template/extra_os.go
index 2b72c93..f529877 100644
--- a/template/extra_os.go
+++ b/template/extra_os.go
@@ -210,7 +210,7 @@ func loadFromFile(filename string, binary ...bool) (interface{}, error) {
 func saveToFile(filename string, object interface{}) (string, error) {
 	folder := path.Dir(filename)
 	if _, err := os.Stat(folder); os.IsNotExist(err) {
-		if err = os.Mkdir(folder, 0777); err != nil {
+		if err = os.Mkdir(folder, 0777); err != nil && !os.IsExist(err) {
 			return "", err
 		}
 	}
-- 
2.43.0


From 216e5fe6f4c8685e66ff5abe076a2c53cbae2b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:14 +0000
Subject: [PATCH 40/41] fix: the configuration of a function no longer depends
 on the order of the map that gives it

---
 template/extra_runtime.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/template/extra_runtime.go b/template/extra_runtime.go
index b0b4531..748c04b 100644
--- a/template/extra_runtime.go
+++ b/template/extra_runtime.go
@@ -257,7 +257,10 @@ func (t *Template) addAlias(name, function string, source interface{}, local, co
 		return "", fmt.Errorf("too many parameters supplied")
 	}
 
-	for key, val := range config.AsMap() {
+	for _, name := range config.KeysAsString() {
+		// The keys are sorted, so the result (or the error) does not depend on the order of the map
+		key := name.Str()
+		val := config.Get(key)
 		switch strings.ToLower(key) {
 		case "d", "desc", "description":
 			config.Set("description", val)
-- 
2.43.0


From 40c8a8ec80c4bcfb1966d6332197a1a5d03085bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:30 +0000
Subject: [PATCH 41/41] fix: keys of a map that have the same text are always
 converted in the same order

---
 collections/implementation/base_helper.go |  5 +++++
 yaml/yaml.go                              | 11 +++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/collections/implementation/base_helper.go b/collections/implementation/base_helper.go
index 7c9f7e9..b16e5c0 100644
--- a/collections/implementation/base_helper.go
+++ b/collections/implementation/base_helper.go
@@ -3,6 +3,7 @@ package implementation
 import (
 	"fmt"
 	"reflect"
+	"sort"
 
 	"github.com/coveooss/gotemplate/v3/collections"
 )
@@ -127,6 +128,10 @@ func (bh BaseHelper) tryAsDictionary(object interface{}, strict bool) (baseIDict
 				result = bh.CreateDictionary()
 				value := reflect.ValueOf(object)
 				keys := value.MapKeys()
+				// Distinct keys may have the same string representation
+				sort.Slice(keys, func(i, j int) bool {
+					return fmt.Sprintf("%[1]v %[1]T", keys[i].Interface()) < fmt.Sprintf("%[1]v %[1]T", keys[j].Interface())
+				})
 				for i := range keys {
 					result.Set(fmt.Sprint(keys[i]), value.MapIndex(keys[i]).Interface())
 				}
diff --git a/yaml/yaml.go b/yaml/yaml.go
index 63e5149..4be248e 100644
--- a/yaml/yaml.go
+++ b/yaml/yaml.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"reflect"
+	"sort"
 
 	"github.com/coveooss/gotemplate/v3/collections"
 	"github.com/coveooss/gotemplate/v3/collections/implementation"
@@ -49,9 +50,15 @@ func transform(out interface{}) {
 func transformElement(source interface{}) interface{} {
 	switch value := source.(type) {
 	case map[interface{}]interface{}:
+		keys := make([]interface{}, 0, len(value))
+		for key := range value {
+			keys = append(keys, key)
+		}
+		// Distinct keys may have the same string representation
+		sort.Slice(keys, func(i, j int) bool { return fmt.Sprintf("%[1]v %[1]T", keys[i]) < fmt.Sprintf("%[1]v %[1]T", keys[j]) })
 		result := make(map[string]interface{}, len(value))
-		for key, val := range value {
-			result[fmt.Sprint(key)] = val
+		for _, key := range keys {
+			result[fmt.Sprint(key)] = value[key]
 		}
 		source = result
 	}
-- 
2.43.0

