// Runs a function in a child process and tells whether it ended abnormally (assertion, terminate).
#pragma once
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <exception>

namespace pbt
{
template <typename F>
bool Dies(F&& f)
{
    const pid_t pid = fork();
    if (pid == 0)
    {
        const int null = open("/dev/null", O_WRONLY);
        dup2(null, 2);
        dup2(null, 1);
        std::signal(SIGABRT, SIG_DFL);
        alarm(20);
        try
        {
            f();
        }
        catch (...)
        {
            _exit(3);
        }
        _exit(0);
    }
    int status{0};
    while (waitpid(pid, &status, 0) < 0)
    {
    }
    return WIFSIGNALED(status) != 0;
}
}  // namespace pbt
