From 6ffb7ee24f0da56ff0ad18ad534d308dbf4b3b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:52 +0000
Subject: [PATCH 01/30] fix: a task that throws must not leave its dependents
 waiting forever

If starting the command (or writing the log) throws, the task result stayed
Pending, so that TaskList::process waited forever for the dependent tasks.
---
 core/db/task_list.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/db/task_list.cpp b/core/db/task_list.cpp
index b53f714..537f8aa 100644
--- a/core/db/task_list.cpp
+++ b/core/db/task_list.cpp
@@ -95,6 +95,10 @@ size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
 				                 task_results = m_results.get(),
 				                 at_exit = ScopeExitHandler{[&e]() { e.set(); }}]() mutable {
 					auto const index = task.node().id().value();
+					// An exception must also make the result known to dependent tasks
+					auto task_result = TaskResult::Failure;
+					ScopeExitHandler publish_result{
+					   [task_results, index, &task_result]() { task_results[index] = task_result; }};
 					if(auto result = task.runIfNecessary(force_recompilation, invoker); result)
 					{
 						auto const build_failed = failed(*result);
@@ -103,7 +107,6 @@ size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
 						{
 							std::string msg{task.node().path()};
 							msg += ": Compilation failed";
-							task_results[index] = TaskResult::Failure;
 							throw std::runtime_error{std::move(msg)};
 						}
 					}
@@ -111,7 +114,7 @@ size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
 					{
 						compilation_log.write(task);
 					}
-					task_results[index] = TaskResult::Success;
+					task_result = TaskResult::Success;
 				});
 				i = tasks.erase(i);
 				wrap_iterator();
-- 
2.43.0


From a0bb0862907a7d84174de38a4324f9191574ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:33 +0000
Subject: [PATCH 02/30] fix: close the input of a process when everything has
 been written

A process that reads its standard input to the end never exited, since the
write end of the pipe was kept open while waiting for it.
---
 core/exec/execve.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index a634dd4..120acef 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -132,12 +132,14 @@ namespace
 
 
 	Maike::Exec::ExitStatus communicateWith(
-	   pid_t pid, Maike::Io::Redirector const& io_redirector, int stdin, int stdout, int stderr)
+	   pid_t pid, Maike::Io::Redirector const& io_redirector, Pipe& stdin, int stdout, int stderr)
 	{
 		signal(SIGPIPE, SIG_IGN);
 		std::thread stderr_proc{read, io_redirector.handle(), stderr, io_redirector.stderr()};
 		std::thread stdout_proc{read, io_redirector.handle(), stdout, io_redirector.stdout()};
-		write(io_redirector.handle(), stdin, io_redirector.stdin());
+		write(io_redirector.handle(), stdin.writeEnd(), io_redirector.stdin());
+		// The process may read its input until the end before it exits
+		stdin.closeWriteEnd();
 
 		int status;
 		if(::waitpid(pid, &status, 0) == -1) { abort(); }
@@ -224,7 +226,7 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	stdout.closeWriteEnd();
 	stderr.closeWriteEnd();
 
-	return communicateWith(pid, io_redirector, stdin.writeEnd(), stdout.readEnd(), stderr.readEnd());
+	return communicateWith(pid, io_redirector, stdin, stdout.readEnd(), stderr.readEnd());
 }
 
 namespace
-- 
2.43.0


From cdaa45cd848a0dd676d0b36f1cadb717a43613ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:33 +0000
Subject: [PATCH 03/30] fix: processes started concurrently must not inherit
 each other's pipes

Any process holding a copy of the write end of a pipe delays or prevents the
end-of-file condition on it.
---
 core/exec/execve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index 120acef..cb23fce 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -27,7 +27,7 @@ namespace
 		Pipe()
 		{
 			int fds[2];
-			if(pipe(fds) == -1) { throw "Failed to create pipe"; }
+			if(pipe2(fds, O_CLOEXEC) == -1) { throw "Failed to create pipe"; }
 			m_read_end = fds[0];
 			m_write_end = fds[1];
 		}
-- 
2.43.0


From 1390b5f0ef1c24ee54950185c71c67bae68908c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:19 +0000
Subject: [PATCH 04/30] fix: quote printed commands so that a shell reads them
 back unchanged

---
 core/exec/command.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/exec/command.cpp b/core/exec/command.cpp
index bf14826..f482d5b 100644
--- a/core/exec/command.cpp
+++ b/core/exec/command.cpp
@@ -12,8 +12,11 @@ namespace
 	{
 		std::string ret{"'"};
 		std::for_each(std::begin(str), std::end(str), [&ret](auto ch_in) {
-			if(ch_in == '\\' || ch_in == '\'') { ret += '\\'; }
-			ret += ch_in;
+			if(ch_in == '\'') { ret += "'\\''"; }
+			else
+			{
+				ret += ch_in;
+			}
 		});
 		ret += "'";
 
-- 
2.43.0


From c0b576e2943c628b0b643756395ddfa3da11634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:19 +0000
Subject: [PATCH 05/30] fix: reject build ids that do not have exactly 64
 digits

---
 core/build/id.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/build/id.cpp b/core/build/id.cpp
index 4970618..d7e0426 100644
--- a/core/build/id.cpp
+++ b/core/build/id.cpp
@@ -35,7 +35,10 @@ Maike::Build::Id::Id(char const* cstr): m_bytes{}
 	while(true)
 	{
 		auto ch_in = *cstr;
-		if(ch_in == '\0' || k == 64) { return; }
+		if(ch_in == '\0' && k == 64) { return; }
+
+		if(ch_in == '\0' || k == 64)
+		{ throw std::runtime_error{"Invalid BuildId: Expected exactly 64 hexadecimal digits"}; }
 
 		auto nibble = to_nibble(ch_in);
 
-- 
2.43.0


From 117cdc4270a810e47973022803f57029428e9eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:19 +0000
Subject: [PATCH 06/30] fix: do not accept a prefix of a command line option

---
 core/cmd_line_parser/command_line.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/cmd_line_parser/command_line.cpp b/core/cmd_line_parser/command_line.cpp
index 46a664e..844bdfc 100644
--- a/core/cmd_line_parser/command_line.cpp
+++ b/core/cmd_line_parser/command_line.cpp
@@ -71,12 +71,11 @@ uint64_t Maike::CmdLineParser::detail::collect_options(char const* const* argv_b
 		auto const str_end = str + l;
 		auto splitpoint = std::find(str, str_end, '=');
 
-		auto x = binaryFind(optitems_begin,
-		                    optitems_end,
-		                    str,
-		                    CompareOptItemsByName{static_cast<size_t>(splitpoint - str)});
+		auto const name_length = static_cast<size_t>(splitpoint - str);
+		auto x =
+		   binaryFind(optitems_begin, optitems_end, str, CompareOptItemsByName{name_length});
 
-		if(x == optitems_end)
+		if(x == optitems_end || strlen(x->name) != name_length)
 		{ throw std::runtime_error{std::string{"Invalid command line option "} + str}; }
 
 		set_vals |= x->converter(tuple, splitpoint == str_end ? "" : splitpoint + 1);
-- 
2.43.0


From 79e5a490fb8e4827db3973ffcac63b1dcaf12315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 07/30] fix: recognise the end of comments and raw strings
 after repeated end characters

---
 .../cxx/source_file_loader.cpp                       | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 5a8dfee..0a937de 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -113,6 +113,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '/': state = State::SkipLine; break;
+					case '*': break;
 					case '\n': state = State::CommentBlock; break;
 					default: state = State::CommentBlock; break;
 				}
@@ -151,7 +152,12 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						raw_string_end_mark.clear();
 						break;
 
-					case '\n': state = State::RawString; break;
+					case ')': raw_string_end_mark.clear(); break;
+
+					case '\n':
+						state = State::RawString;
+						raw_string_end_mark.clear();
+						break;
 
 					default: raw_string_end_mark += ch_in;
 				}
@@ -367,6 +373,7 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '/': state = State::SkipLine; break;
+					case '*': break;
 					case '\n':
 						state = State::CommentBlock;
 						tags.putchar('\n');
@@ -427,8 +434,11 @@ void Cxx::SourceFileLoader::filterInput(
 						raw_string_end_mark.clear();
 						break;
 
+					case ')': raw_string_end_mark.clear(); break;
+
 					case '\n':
 						state = State::RawString;
+						raw_string_end_mark.clear();
 						tags.putchar('\n');
 						break;
 
-- 
2.43.0


From bf82350a5b82550a496d702abda5bf958c67f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 08/30] fix: line comments and string literals do not open
 comments

---
 .../cxx/source_file_loader.cpp                | 85 ++++++++++++++++++-
 1 file changed, 84 insertions(+), 1 deletion(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 0a937de..30e0a09 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -31,6 +31,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 		Newline,
 		CommentFirst,
 		SkipLine,
+		LineComment,
+		Character,
+		StringLiteral,
+		StringLiteralEscape,
 		CommentBlock,
 		CommentBlockPreEnd,
 		RawStringBegin,
@@ -72,6 +76,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						preproc_directive.clear();
 						break;
 
+					case '"': state = State::StringLiteral; break;
+
 					default:
 						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = State::SkipLine; }
 						break;
@@ -82,6 +88,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '*': state = State::CommentBlock; break;
+					case '/': state = State::LineComment; break;
 					case '\n': state = State::Newline; break;
 
 					default: state = State::SkipLine;
@@ -98,10 +105,38 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						state = State::RawStringBegin;
 						break;
 					case '/': state = State::CommentFirst; break;
+					case '"': state = State::StringLiteral; break;
+					case '\'': state = State::Character; break;
+					default: break;
+				}
+				break;
+
+			case State::LineComment:
+				if(ch_in == '\n') { state = State::Newline; }
+				break;
+
+			case State::Character:
+				switch(ch_in)
+				{
+					case '\n': state = State::Newline; break;
+					case '/': state = State::CommentFirst; break;
+					// Includes the case when the character is a double quote
+					default: state = State::SkipLine;
+				}
+				break;
+
+			case State::StringLiteral:
+				switch(ch_in)
+				{
+					case '"': state = State::SkipLine; break;
+					case '\n': state = State::Newline; break;
+					case '\\': state = State::StringLiteralEscape; break;
 					default: break;
 				}
 				break;
 
+			case State::StringLiteralEscape: state = State::StringLiteral; break;
+
 			case State::CommentBlock:
 				switch(ch_in)
 				{
@@ -262,6 +297,10 @@ void Cxx::SourceFileLoader::filterInput(
 		TagSymbol,
 		Tag,
 		SkipLine,
+		LineComment,
+		Character,
+		StringLiteral,
+		StringLiteralEscape,
 		CommentBlock,
 		CommentBlockPreEnd,
 		CommentFirstSkipLine,
@@ -297,6 +336,8 @@ void Cxx::SourceFileLoader::filterInput(
 						raw_string_end_mark.clear();
 						break;
 
+					case '"': state = State::StringLiteral; break;
+
 					default:
 						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = State::SkipLine; }
 						else
@@ -335,7 +376,7 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
-					default: state = State::SkipLine; break;
+					default: state = State::LineComment; break;
 				}
 				break;
 
@@ -357,10 +398,51 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::RawStringBegin;
 						break;
 					case '/': state = State::CommentFirstSkipLine; break;
+					case '"': state = State::StringLiteral; break;
+					case '\'': state = State::Character; break;
+					default: break;
+				}
+				break;
+
+			case State::LineComment:
+				if(ch_in == '\n')
+				{
+					state = State::Newline;
+					tags.putchar('\n');
+				}
+				break;
+
+			case State::Character:
+				switch(ch_in)
+				{
+					case '\n':
+						state = State::Newline;
+						tags.putchar('\n');
+						break;
+					case '/': state = State::CommentFirstSkipLine; break;
+					// Includes the case when the character is a double quote
+					default: state = State::SkipLine;
+				}
+				break;
+
+			case State::StringLiteral:
+				switch(ch_in)
+				{
+					case '"': state = State::SkipLine; break;
+					case '\n':
+						state = State::Newline;
+						tags.putchar('\n');
+						break;
+					case '\\': state = State::StringLiteralEscape; break;
 					default: break;
 				}
 				break;
 
+			case State::StringLiteralEscape:
+				if(ch_in == '\n') { tags.putchar('\n'); }
+				state = State::StringLiteral;
+				break;
+
 			case State::CommentBlock:
 				switch(ch_in)
 				{
@@ -386,6 +468,7 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '*': state = State::CommentBlock; break;
+					case '/': state = State::LineComment; break;
 					case '\n':
 						state = State::Newline;
 						tags.putchar('\n');
-- 
2.43.0


From ac9600f4b4a47475d10ab177e9bed3639a3731ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 09/30] fix: only include directives include, and a directive
 ends at the end of its line

---
 .../cxx/source_file_loader.cpp                   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 30e0a09..f231592 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -199,7 +199,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				break;
 
 			case State::PrePreprocessorDirective:
-				if(!(ch_in >= '\0' && ch_in <= ' '))
+				if(ch_in == '\n') { state = State::Newline; }
+				else if(!(ch_in >= '\0' && ch_in <= ' '))
 				{
 					preproc_directive += ch_in;
 					state = State::PreprocessorDirective;
@@ -213,8 +214,9 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
 						break;
 					case '"':
-						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
+						state = preproc_directive == "include" ? State::IncludeProject : State::StringLiteral;
 						break;
+					case '\n': state = State::Newline; break;
 					default:
 						if(ch_in >= '\0' && ch_in <= ' ') { state = State::PreprocessorDirectivePreArg; }
 						else
@@ -230,9 +232,15 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				{
 					case '\n': state = State::Newline; break;
 
-					case '"': state = State::IncludeProject; break;
+					case '"':
+						state = preproc_directive == "include" ? State::IncludeProject : State::StringLiteral;
+						break;
 
-					case '<': state = State::IncludeSystem; break;
+					case '<':
+						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
+						break;
+
+					case '/': state = State::CommentFirst; break;
 
 					default:
 						if(!(ch_in >= '\0' && ch_in <= ' '))
-- 
2.43.0


From bc106a0191a1db5d8c0fa23bd27cb23904e25ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:47 +0000
Subject: [PATCH 10/30] fix: do not discard the last bytes of structured text,
 so that truncated text is rejected

---
 core/key_value_store/json_handle.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/key_value_store/json_handle.cpp b/core/key_value_store/json_handle.cpp
index eaf5906..9c0ca5f 100644
--- a/core/key_value_store/json_handle.cpp
+++ b/core/key_value_store/json_handle.cpp
@@ -31,7 +31,7 @@ namespace
 	class ReadHelper
 	{
 	public:
-		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}
+		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}, m_at_end{false}
 		{
 		}
 
@@ -39,10 +39,15 @@ namespace
 		{
 			size_t n_written = 0;
 			auto const buffer_init = buffer;
-			while(n_written != n)
+			while(n_written != n && !m_at_end)
 			{
 				auto ch_in = m_buffer.getchar();
-				if(ch_in == -1) { return 0; }
+				if(ch_in == -1)
+				{
+					// Do not throw away what has been read so far
+					m_at_end = true;
+					break;
+				}
 
 				*buffer = static_cast<std::byte>(ch_in);
 				++buffer;
@@ -64,6 +69,7 @@ namespace
 	private:
 		Maike::Io::InputBuffer<Maike::Io::Reader> m_buffer;
 		bool m_has_data;
+		bool m_at_end;
 	};
 }
 
-- 
2.43.0


From d8241babbc654c2075413083abcf98a3f8b362ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:47 +0000
Subject: [PATCH 11/30] fix: read output of recipes longer than one buffer

---
 core/db/compiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/db/compiler.cpp b/core/db/compiler.cpp
index 7aa9e8f..fe3c618 100644
--- a/core/db/compiler.cpp
+++ b/core/db/compiler.cpp
@@ -47,6 +47,7 @@ namespace
 		auto const bytes_left = std::size(reader.buffer.get()) - reader.read_offset;
 		auto const bytes_to_read = std::min(n, bytes_left);
 		memcpy(output, reader.buffer.get().data() + reader.read_offset, bytes_to_read);
+		reader.read_offset += bytes_to_read;
 
 		return bytes_to_read;
 	}
-- 
2.43.0


From e3f0c743512e782d108204d541f84fa74f15fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:47 +0000
Subject: [PATCH 12/30] fix: a boolean can be overridden by the other boolean

---
 core/key_value_store/compound.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/key_value_store/compound.cpp b/core/key_value_store/compound.cpp
index 1f59a9f..d7f8564 100644
--- a/core/key_value_store/compound.cpp
+++ b/core/key_value_store/compound.cpp
@@ -7,12 +7,23 @@
 
 #include <algorithm>
 
+namespace
+{
+	bool isBool(Maike::KeyValueStore::Type type)
+	{
+		using Maike::KeyValueStore::Type;
+		return type == Type::True || type == Type::False;
+	}
+}
+
 Maike::KeyValueStore::Compound& Maike::KeyValueStore::operator|=(Compound& a, CompoundRefConst b)
 {
 	std::for_each(std::begin(b), std::end(b), [&a](auto const& item) {
 		if(auto item_in_a = a.getIfAny(item.first); item_in_a)
 		{
-			if(item_in_a->type() != item.second.type()) { throw std::runtime_error{"Type mismatch"}; }
+			if(item_in_a->type() != item.second.type()
+			   && !(isBool(item_in_a->type()) && isBool(item.second.type())))
+			{ throw std::runtime_error{"Type mismatch"}; }
 
 			switch(item_in_a->type())
 			{
-- 
2.43.0


From 3ad346b3f170f180ba4ed003c534028840a5e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:41 +0000
Subject: [PATCH 13/30] fix: control characters in front of a tag must not hide
 it

---
 core/source_file_info_loaders/cxx/source_file_loader.cpp       | 3 ++-
 core/source_file_info_loaders/extension/source_file_loader.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index f231592..1275913 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -350,7 +350,8 @@ void Cxx::SourceFileLoader::filterInput(
 						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = State::SkipLine; }
 						else
 						{
-							tags.putchar(ch_in);
+							// Other control characters, such as form feed, are not whitespace in JSON
+							tags.putchar(ch_in == '\n' ? '\n' : ' ');
 						}
 						break;
 				}
diff --git a/core/source_file_info_loaders/extension/source_file_loader.cpp b/core/source_file_info_loaders/extension/source_file_loader.cpp
index 6c85ada..797fc6e 100644
--- a/core/source_file_info_loaders/extension/source_file_loader.cpp
+++ b/core/source_file_info_loaders/extension/source_file_loader.cpp
@@ -47,7 +47,8 @@ void Extension::SourceFileLoader::filterInput(
 						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = State::SkipLine; }
 						else
 						{
-							tags.putchar(ch_in);
+							// Other control characters, such as form feed, are not whitespace in JSON
+							tags.putchar(ch_in == '\n' ? '\n' : ' ');
 						}
 						break;
 				}
-- 
2.43.0


From cf8c4a0c1344ecd4cfffbee97926b322908e28d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:41 +0000
Subject: [PATCH 14/30] fix: do not ignore malformed structured text that
 begins with a control character

---
 core/key_value_store/json_handle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/key_value_store/json_handle.cpp b/core/key_value_store/json_handle.cpp
index 9c0ca5f..b97c2d3 100644
--- a/core/key_value_store/json_handle.cpp
+++ b/core/key_value_store/json_handle.cpp
@@ -24,7 +24,7 @@ namespace
 	{
 		return std::any_of(begin, end, [](auto item) {
 			auto ch_in = static_cast<char>(item);
-			return !(ch_in >= 0 && ch_in <= ' ');
+			return !(ch_in == ' ' || ch_in == '\t' || ch_in == '\n' || ch_in == '\r');
 		});
 	}
 
-- 
2.43.0


From 1ddd848ac30d595109f8474993d1fc86d2c10566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 15/30] fix: names of the source and target directories may be
 written in any way

--source-dir=./p found no files at all, --source-dir=p/ and p/../q failed
to resolve the directory, and --target-dir=./t made --targets fail, because
names in the dependency graph are normalized and these were not.
---
 core/build/info.cpp | 9 ++++++++-
 core/build/info.hpp | 9 +++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/build/info.cpp b/core/build/info.cpp
index bd2f616..8a277b0 100644
--- a/core/build/info.cpp
+++ b/core/build/info.cpp
@@ -11,4 +11,11 @@ Maike::Build::Info::Info(): m_source_dir{"."}, m_target_dir{"__targets"}
 	utsname name;
 	uname(&name);
 	m_build_host = name.nodename;
-}
\ No newline at end of file
+}
+
+Maike::fs::path Maike::Build::normalizeDir(fs::path const& dir)
+{
+	auto ret = dir.lexically_normal();
+	if(!ret.has_filename() && ret.has_relative_path()) { return ret.parent_path(); }
+	return ret;
+}
diff --git a/core/build/info.hpp b/core/build/info.hpp
index 1b6fac5..d1cb351 100644
--- a/core/build/info.hpp
+++ b/core/build/info.hpp
@@ -16,6 +16,11 @@
 
 namespace Maike::Build
 {
+	/**
+	 * Returns the name of dir that is used as a prefix of names in the dependency graph.
+	 */
+	fs::path normalizeDir(fs::path const& dir);
+
 	class Info
 	{
 	public:
@@ -45,7 +50,7 @@ namespace Maike::Build
 
 		Info& sourceDir(fs::path&& val)
 		{
-			m_source_dir = std::move(val);
+			m_source_dir = normalizeDir(val);
 			return *this;
 		}
 
@@ -56,7 +61,7 @@ namespace Maike::Build
 
 		Info& targetDir(fs::path&& val)
 		{
-			m_target_dir = std::move(val);
+			m_target_dir = normalizeDir(val);
 			return *this;
 		}
 
-- 
2.43.0


From 20bb912bf1f0b6be4989a34e7324e7a5a76d4fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 16/30] fix: normalize names before they are moved to the
 target directory

A name that leaves the source directory and enters it again, such as
../p/x from the project p, was placed outside of the target directory.
---
 core/source_tree_loader/source_file_load_ctxt.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/source_tree_loader/source_file_load_ctxt.cpp b/core/source_tree_loader/source_file_load_ctxt.cpp
index e0006e6..e609bf2 100644
--- a/core/source_tree_loader/source_file_load_ctxt.cpp
+++ b/core/source_tree_loader/source_file_load_ctxt.cpp
@@ -25,7 +25,7 @@ Maike::fs::path Maike::SourceTreeLoader::prependSearchPath(SourceFileLoadContext
 	{ ret = (load_ctxt.sourceFileDir() / src_name).lexically_normal(); }
 	else
 	{
-		ret = load_ctxt.sourceDir() / src_name;
+		ret = (load_ctxt.sourceDir() / src_name).lexically_normal();
 	}
 
 	if(expected_origin == Db::SourceFileOrigin::Generated)
@@ -84,7 +84,9 @@ Maike::fs::path Maike::SourceTreeLoader::makeTargetName(SourceFileLoadContext co
                                                         fs::path const& name)
 {
 	return (load_ctxt.targetDir()
-	        / (load_ctxt.sourceFileDir() / name).lexically_relative(load_ctxt.sourceDir()))
+	        / (load_ctxt.sourceFileDir() / name)
+	             .lexically_normal()
+	             .lexically_relative(load_ctxt.sourceDir()))
 	   .lexically_normal();
 }
 
-- 
2.43.0


From 2b46f2acc06487cea3d641a10cbe66a8db9bce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:07 +0000
Subject: [PATCH 17/30] fix: build targets from their source file also when
 they are found by the scan

---
 core/db/source_file_list.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/db/source_file_list.cpp b/core/db/source_file_list.cpp
index 4f21988..80986a9 100644
--- a/core/db/source_file_list.cpp
+++ b/core/db/source_file_list.cpp
@@ -120,7 +120,20 @@ void Maike::Db::makeSourceFileInfos(TargetList const& targets, SourceFileList& s
 {
 	DependencyGraph g{SourceFileList{source_files}, Db::DependencyGraph::IgnoreResolveErrors{}};
 	std::for_each(std::begin(targets), std::end(targets), [&g, &source_files](auto const& item) {
-		source_files.insert(std::make_pair(item.first, makeSourceFileInfo(item, g)));
+		auto target = makeSourceFileInfo(item, g);
+		auto const i = source_files.insert(std::make_pair(item.first, target));
+		if(i.second) { return; }
+
+		// A target from an earlier build may be found when the source directory is scanned. It still
+		// has to be produced from its source file.
+		auto& found = i.first->second;
+		auto use_deps = found.useDeps();
+		auto build_deps = found.buildDeps();
+		std::copy(
+		   std::begin(target.useDeps()), std::end(target.useDeps()), std::back_inserter(use_deps));
+		std::copy(
+		   std::begin(target.buildDeps()), std::end(target.buildDeps()), std::back_inserter(build_deps));
+		found.useDeps(std::move(use_deps)).buildDeps(std::move(build_deps));
 	});
 }
 
-- 
2.43.0


From 8e4b86a52df6fec561a58c575a95a1b6b23bd539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:18 +0000
Subject: [PATCH 18/30] fix: a file with compiler settings of its own depends
 on the default recipe if it has none

---
 core/source_tree_loader/source_file_load_ctxt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/source_tree_loader/source_file_load_ctxt.cpp b/core/source_tree_loader/source_file_load_ctxt.cpp
index e609bf2..9132a65 100644
--- a/core/source_tree_loader/source_file_load_ctxt.cpp
+++ b/core/source_tree_loader/source_file_load_ctxt.cpp
@@ -208,7 +208,7 @@ Maike::SourceTreeLoader::loadSourceFile(SourceFileLoadContext const& load_ctxt,
 	std::copy(std::begin(use_deps), std::end(use_deps), std::back_inserter(builtin_deps));
 
 	auto compiler = tags.getIf<Db::Compiler>("compiler");
-	if(compiler) { compiler->resolveRecipe(commands); }
+	if(compiler && compiler->recipe() != "") { compiler->resolveRecipe(commands); }
 
 	[&targets, &builtin_deps, &child_target_use_deps](
 	   SourceTreeLoader::SourceFileLoadContext const& load_ctxt,
@@ -225,7 +225,7 @@ Maike::SourceTreeLoader::loadSourceFile(SourceFileLoadContext const& load_ctxt,
 			std::copy(std::begin(ctu_deps), std::end(ctu_deps), std::back_inserter(child_target_use_deps));
 		}
 		if(compiler.recipe() != "") { builtin_deps.push_back(makeDependency(compiler)); }
-	}(load_ctxt, compiler ? (*compiler) : loader.compiler(), src_path);
+	}(load_ctxt, compiler ? (loader.compiler() | *compiler) : loader.compiler(), src_path);
 
 	auto const rebuild_policy = [](auto const& tags) {
 		if(auto rebuild_policy = tags.template getIf<Db::RebuildPolicy>("rebuild"); rebuild_policy)
-- 
2.43.0


From 3b87f3aab106082f377ab174c59efc1afdb5113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:21 +0000
Subject: [PATCH 19/30] fix: skip the target directory when scanning, and
 reject a missing source directory

---
 core/source_tree_loader/directory_scanner.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/source_tree_loader/directory_scanner.cpp b/core/source_tree_loader/directory_scanner.cpp
index daa9971..b235b60 100644
--- a/core/source_tree_loader/directory_scanner.cpp
+++ b/core/source_tree_loader/directory_scanner.cpp
@@ -48,6 +48,15 @@ void Maike::SourceTreeLoader::DirectoryScanner::processPath(
 			if(r_filter.get().match(src_path.filename().c_str())) { return; }
 
 			if(r_dir_filter.get().match((src_path.lexically_relative(m_root)).c_str())) { return; }
+
+			// Files in the target directory are not source files, even if the target directory is
+			// located inside the source directory
+			std::error_code ec;
+			if(equivalent(src_path, target_dir, ec)) { return; }
+		}
+		else if(!is_directory(src_path))
+		{
+			throw std::runtime_error{src_path.string() + ": error: The source directory does not exist"};
 		}
 
 		auto src_path_normal = src_path.lexically_normal();
-- 
2.43.0


From f57617629cc9871ba85add1b4c241059a6fc459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 20/30] fix: report names that can not be told to a recipe
 instead of leaving them out

---
 core/key_value_store/array.hpp    | 6 ++++--
 core/key_value_store/compound.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/key_value_store/array.hpp b/core/key_value_store/array.hpp
index f8a00d6..58ddf8a 100644
--- a/core/key_value_store/array.hpp
+++ b/core/key_value_store/array.hpp
@@ -132,14 +132,16 @@ namespace Maike::KeyValueStore
 		template<class T>
 		Array& append(T&& value) &
 		{
-			(void)json_array_append_new(m_handle.handle(), toJson(std::forward<T>(value)).release());
+			if(json_array_append_new(m_handle.handle(), toJson(std::forward<T>(value)).release()) != 0)
+			{ throw std::runtime_error{"error: Array element is not a valid UTF-8 string."}; }
 			return *this;
 		}
 
 		template<class T>
 		Array&& append(T&& value) &&
 		{
-			(void)json_array_append_new(m_handle.handle(), toJson(std::forward<T>(value)).release());
+			if(json_array_append_new(m_handle.handle(), toJson(std::forward<T>(value)).release()) != 0)
+			{ throw std::runtime_error{"error: Array element is not a valid UTF-8 string."}; }
 			return std::move(*this);
 		}
 
diff --git a/core/key_value_store/compound.hpp b/core/key_value_store/compound.hpp
index aac013c..bce4211 100644
--- a/core/key_value_store/compound.hpp
+++ b/core/key_value_store/compound.hpp
@@ -146,14 +146,16 @@ namespace Maike::KeyValueStore
 		template<class T>
 		Compound& set(char const* key, T&& value) &
 		{
-			(void)json_object_set_new(m_handle.handle(), key, toJson(std::forward<T>(value)).release());
+			if(json_object_set_new(m_handle.handle(), key, toJson(std::forward<T>(value)).release()) != 0)
+			{ throw std::runtime_error{std::string{key}.append(": error: Not a valid UTF-8 string.")}; }
 			return *this;
 		}
 
 		template<class T>
 		Compound&& set(char const* key, T&& value) &&
 		{
-			(void)json_object_set_new(m_handle.handle(), key, toJson(std::forward<T>(value)).release());
+			if(json_object_set_new(m_handle.handle(), key, toJson(std::forward<T>(value)).release()) != 0)
+			{ throw std::runtime_error{std::string{key}.append(": error: Not a valid UTF-8 string.")}; }
 			return std::move(*this);
 		}
 
-- 
2.43.0


From 896e7e961bacb3f4f7f34608b3ff2f3811aa4801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:39 +0000
Subject: [PATCH 21/30] fix: report errors that occur while reading from a file
 instead of taking them for the end of it

---
 core/io/input_file.hpp               |  8 +++++++-
 core/key_value_store/json_handle.cpp | 25 ++++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/core/io/input_file.hpp b/core/io/input_file.hpp
index 36880ce..3297bf8 100644
--- a/core/io/input_file.hpp
+++ b/core/io/input_file.hpp
@@ -9,6 +9,10 @@
 #include <unistd.h>
 #include <fcntl.h>
 
+#include <cerrno>
+#include <cstring>
+#include <stdexcept>
+#include <string>
 #include <utility>
 
 namespace Maike::Io
@@ -41,7 +45,9 @@ namespace Maike::Io
 
 		size_t read(std::byte* buffer, size_t n)
 		{
-			return ::read(m_handle, buffer, n);
+			auto const ret = ::read(m_handle, buffer, n);
+			if(ret == -1) { throw std::runtime_error{std::string{"Read error: "} + strerror(errno)}; }
+			return static_cast<size_t>(ret);
 		}
 
 		void reset()
diff --git a/core/key_value_store/json_handle.cpp b/core/key_value_store/json_handle.cpp
index b97c2d3..e74cdf6 100644
--- a/core/key_value_store/json_handle.cpp
+++ b/core/key_value_store/json_handle.cpp
@@ -7,6 +7,7 @@
 #include "core/io/input_buffer.hpp"
 
 #include <algorithm>
+#include <exception>
 
 namespace
 {
@@ -41,7 +42,7 @@ namespace
 			auto const buffer_init = buffer;
 			while(n_written != n && !m_at_end)
 			{
-				auto ch_in = m_buffer.getchar();
+				auto ch_in = getchar();
 				if(ch_in == -1)
 				{
 					// Do not throw away what has been read so far
@@ -66,10 +67,30 @@ namespace
 			return m_has_data;
 		}
 
+		std::exception_ptr error() const
+		{
+			return m_error;
+		}
+
 	private:
 		Maike::Io::InputBuffer<Maike::Io::Reader> m_buffer;
 		bool m_has_data;
 		bool m_at_end;
+		std::exception_ptr m_error;
+
+		int getchar()
+		{
+			// Exceptions must not propagate through the parser
+			try
+			{
+				return m_buffer.getchar();
+			}
+			catch(...)
+			{
+				m_error = std::current_exception();
+				return -1;
+			}
+		}
 	};
 }
 
@@ -90,6 +111,8 @@ Maike::KeyValueStore::JsonHandle Maike::KeyValueStore::jsonLoad(Io::Reader reade
 	      &err),
 	   src_name};
 
+	if(auto const error = read_helper.error(); error) { std::rethrow_exception(error); }
+
 	if(!ret.valid() && read_helper.hasData())
 	{ throw DecodeError{src_name, err.line, err.column, err.text}; }
 
-- 
2.43.0


From 7deb815fa8008799afb51c06282625629df32d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:20 +0000
Subject: [PATCH 22/30] fix: generic recipe reports failure of the program that
 it runs

---
 recipes/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/generic.py b/recipes/generic.py
index c654226..179a02c 100755
--- a/recipes/generic.py
+++ b/recipes/generic.py
@@ -42,7 +42,7 @@ if __name__ == '__main__':
 		if sys.argv[1] == 'configure':
 			exit(0)
 		if sys.argv[1] == 'compile':
-			compile(args);
+			exit(compile(args))
 	except Exception as e:
 		print(e, file=sys.stderr)
 		exit(-1)
\ No newline at end of file
-- 
2.43.0


From 708a5e30f077e49b0c889237ed96bd5aaa38219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:20 +0000
Subject: [PATCH 23/30] fix: make_directory reports a failure when there is a
 file in place of the directory

---
 recipes/make_directory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recipes/make_directory.py b/recipes/make_directory.py
index 4001b6e..8ecffb7 100755
--- a/recipes/make_directory.py
+++ b/recipes/make_directory.py
@@ -14,7 +14,8 @@ def mkdir(path):
 		else:
 			os.mkdir(path)
 	except FileExistsError:
-		pass
+		if not os.path.isdir(path):
+			raise
 
 def compile(dict):
 	for target in dict["targets"]:
-- 
2.43.0


From c052f17356ce2e97ae4360e85e5cddcebd9b8002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 24/30] fix: md2htmlpart reports failure of pandoc

---
 recipes/md2htmlpart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/md2htmlpart.py b/recipes/md2htmlpart.py
index ca4f51a..7ba1168 100755
--- a/recipes/md2htmlpart.py
+++ b/recipes/md2htmlpart.py
@@ -16,6 +16,8 @@ def find_elements(node, element, result):
 
 def convert(src_file, target):
 	pandoc_res = subprocess.run(['pandoc', '-f', 'markdown', '-t', 'html', '--section-divs', src_file], text=True, stdout=subprocess.PIPE)
+	if pandoc_res.returncode != 0:
+		return pandoc_res.returncode
 
 	doc = '<content>' + pandoc_res.stdout + '</content>'
 
-- 
2.43.0


From 7527716715e8a7cdef728a6fb17892145466cce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 25/30] fix: accept a newest standard revision without an
 oldest one

---
 recipes/cxx_compiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 0d3f384..30bc427 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -147,6 +147,7 @@ def select_cpp_rev(compiler, rev):
 			return ''
 	else:
 		if 'max' in rev:
+			max_num = get_numeric_rev(rev['max'])
 			default_rev = get_cpp_revision_tag(compiler)
 			if default_rev > max_num:
 				return rev['max']
-- 
2.43.0


From 42fced82bef1f3fbd02b999310a2a06ae5b1d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 26/30] fix: pass over compilers that do not work when
 selecting a compiler

---
 recipes/cxx_compiler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 30bc427..affff43 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -135,6 +135,8 @@ def select_cpp_rev(compiler, rev):
 				return rev['min']
 			else:
 				default_rev = get_cpp_revision_tag(compiler)
+				if default_rev == None:
+					return None
 				if default_rev < min_num:
 					return rev['min']
 				if default_rev > max_num:
@@ -142,6 +144,8 @@ def select_cpp_rev(compiler, rev):
 				return ''
 		else:
 			default_rev = get_cpp_revision_tag(compiler)
+			if default_rev == None:
+				return None
 			if default_rev < min_num:
 				return rev['min']
 			return ''
@@ -149,6 +153,8 @@ def select_cpp_rev(compiler, rev):
 		if 'max' in rev:
 			max_num = get_numeric_rev(rev['max'])
 			default_rev = get_cpp_revision_tag(compiler)
+			if default_rev == None:
+				return None
 			if default_rev > max_num:
 				return rev['max']
 			return ''
@@ -174,6 +180,8 @@ def select_compiler_and_stdrev(compilers, stdrev):
 	candidates = []
 	for compiler in compilers:
 		rev = select_cpp_rev(compiler, stdrev)
+		if rev == None:
+			continue
 		if rev == '':
 			return (compiler, rev, 0)
 		rev_cfg = get_cpp_revision_tag(compiler, rev)
-- 
2.43.0


From e8fefa39ff74d1f1ca104bcf32a791cfe3433457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:19 +0000
Subject: [PATCH 27/30] fix: a string literal may follow a division sign

---
 .../cxx/source_file_loader.cpp                | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 1275913..be2dbbd 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -90,6 +90,13 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 					case '*': state = State::CommentBlock; break;
 					case '/': state = State::LineComment; break;
 					case '\n': state = State::Newline; break;
+					case '"': state = State::StringLiteral; break;
+					case '\'': state = State::Character; break;
+					case 'R':
+						raw_string_tag.clear();
+						raw_string_end_mark.clear();
+						state = State::RawStringBegin;
+						break;
 
 					default: state = State::SkipLine;
 				}
@@ -369,6 +376,13 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
+					case '"': state = State::StringLiteral; break;
+					case '\'': state = State::Character; break;
+					case 'R':
+						raw_string_tag.clear();
+						raw_string_end_mark.clear();
+						state = State::RawStringBegin;
+						break;
 
 					default: state = State::SkipLine;
 				}
@@ -482,6 +496,13 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
+					case '"': state = State::StringLiteral; break;
+					case '\'': state = State::Character; break;
+					case 'R':
+						raw_string_tag.clear();
+						raw_string_end_mark.clear();
+						state = State::RawStringBegin;
+						break;
 					default: state = State::SkipLine;
 				}
 				break;
-- 
2.43.0


From ae49f7265780959c33fd77a3b54ee6dffc8b2035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:19 +0000
Subject: [PATCH 28/30] fix: a comment or character may follow the letter R

---
 core/source_file_info_loaders/cxx/source_file_loader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index be2dbbd..81ef6f3 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -166,6 +166,9 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				{
 					case '"': state = State::RawStringTag; break;
 					case '\n': state = State::Newline; break;
+					case '/': state = State::CommentFirst; break;
+					case '\'': state = State::Character; break;
+					case 'R': break;
 					default: state = State::SkipLine;
 				}
 				break;
@@ -515,6 +518,9 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
+					case '/': state = State::CommentFirstSkipLine; break;
+					case '\'': state = State::Character; break;
+					case 'R': break;
 					default: state = State::SkipLine;
 				}
 				break;
-- 
2.43.0


From 8bec1c3b3296cce1c2e1321554eed5243623d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:19 +0000
Subject: [PATCH 29/30] fix: an include directive may follow a comment on the
 same line, or have one before its argument

---
 .../cxx/source_file_loader.cpp                | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 81ef6f3..8fac357 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -48,6 +48,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 		IncludeSystem
 	};
 	auto state = State::Newline;
+	// A comment is the same as white space
+	auto state_after_comment = State::SkipLine;
 	std::string raw_string_tag;
 	std::string raw_string_end_mark;
 	std::string preproc_directive;
@@ -63,7 +65,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::Newline:
 				switch(ch_in)
 				{
-					case '/': state = State::CommentFirst; break;
+					case '/':
+						state = State::CommentFirst;
+						state_after_comment = State::Newline;
+						break;
 
 					case 'R':
 						state = State::RawStringBegin;
@@ -111,7 +116,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						raw_string_end_mark.clear();
 						state = State::RawStringBegin;
 						break;
-					case '/': state = State::CommentFirst; break;
+					case '/':
+						state = State::CommentFirst;
+						state_after_comment = State::SkipLine;
+						break;
 					case '"': state = State::StringLiteral; break;
 					case '\'': state = State::Character; break;
 					default: break;
@@ -126,7 +134,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '\n': state = State::Newline; break;
-					case '/': state = State::CommentFirst; break;
+					case '/':
+						state = State::CommentFirst;
+						state_after_comment = State::SkipLine;
+						break;
 					// Includes the case when the character is a double quote
 					default: state = State::SkipLine;
 				}
@@ -154,7 +165,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::CommentBlockPreEnd:
 				switch(ch_in)
 				{
-					case '/': state = State::SkipLine; break;
+					case '/': state = state_after_comment; break;
 					case '*': break;
 					case '\n': state = State::CommentBlock; break;
 					default: state = State::CommentBlock; break;
@@ -166,7 +177,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				{
 					case '"': state = State::RawStringTag; break;
 					case '\n': state = State::Newline; break;
-					case '/': state = State::CommentFirst; break;
+					case '/':
+						state = State::CommentFirst;
+						state_after_comment = State::SkipLine;
+						break;
 					case '\'': state = State::Character; break;
 					case 'R': break;
 					default: state = State::SkipLine;
@@ -250,7 +264,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
 						break;
 
-					case '/': state = State::CommentFirst; break;
+					case '/':
+						state = State::CommentFirst;
+						state_after_comment = State::PreprocessorDirectivePreArg;
+						break;
 
 					default:
 						if(!(ch_in >= '\0' && ch_in <= ' '))
-- 
2.43.0


From 92501a358c90be330e33955d5a56cabe51ab7a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:19 +0000
Subject: [PATCH 30/30] fix: the name in an include directive that is not
 terminated must not become part of the next one

---
 .../cxx/source_file_loader.cpp                         | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 8fac357..44320e1 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -292,7 +292,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						break;
 					}
 
-					case '\n': state = State::Newline; break;
+					case '\n':
+						state = State::Newline;
+						include_path.clear();
+						break;
 
 					default: include_path += ch_in; break;
 				}
@@ -308,7 +311,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						                                     std::vector<Maike::Db::Property>{}});
 						break;
 
-					case '\n': state = State::Newline; break;
+					case '\n':
+						state = State::Newline;
+						include_path.clear();
+						break;
 
 					default: include_path += ch_in; break;
 				}
-- 
2.43.0

